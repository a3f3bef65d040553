"""P28: table entries summarise the experiments correctly."""
import re

from .common import *

FUNCTIONS = ["format_results.format_method", "format_results.read_single_experiment", "format_results.read_table",
             "format_results.write_table", "export_results.py"]
SOURCES = ["src/export/format_results.py", "export_results.py"]
ASSUMPTIONS = ["gaps have at most three decimals (the driver writes them so), so none lies strictly between the required gap and the required gap + 1e-3",
               "times, gaps and iteration numbers are arbitrary nonnegative numbers", "entries show two decimals",
               "the exporter script is run with its own experimental parameters; files of one cell of the table are arbitrary, the others exist with fixed contents",
               "floats are exact reals"]
OPTS = dict(nl="mono")
TOK = re.compile("\u27e6\\d+\u27e7|-?\\d+\\.?\\d*(?:e[+-]?\\d+)?")


def bounds(tier):
    return "format_method: up to %d experiments with arbitrary contents, any ids, MILP and partition methods; export_results.py: one table cell with arbitrary " \
        "gaps and times of up to two methods (all others fixed), solved or not, present or missing" % (4 if tier == "quick" else 5)


def configs(tier):
    out = []
    for n in range(1, 5 if tier == "quick" else 6):
        for m in (1, 2, 3, 4):
            out.append(dict(part="method", n=n, m=m, ids=list(range(1, n + 1))))
    out.append(dict(part="method", n=3, m=3, ids=[3, 1]))
    out.append(dict(part="method", n=2, m=2, ids=[2]))
    # per method: s = all solved with arbitrary times, u = experiment 2 arbitrary gap, x = file missing, 1..3 = number of unsolved ones (fixed)
    pats = ["ssss", "sx1s", "u1s2", "2u1u", "1111", "21x2", "xxxx", "u23x", "usxx", "3311"]
    for i, p in enumerate(pats):
        out.append(dict(part="script", pattern=p, cell=i))
    return out


def entry_value(ctx, text):
    """Number in a table entry."""
    t = TOK.findall(text)[0]
    v = ctx.parse_token(t) if ctx.symbolic else None
    return float(t) if v is None else v


def close2(a, b):
    """a shows b with two decimals."""
    return zand(a - b <= 0.0051, b - a <= 0.0051)


def harness(ctx, cfg):
    (method if cfg["part"] == "method" else script)(ctx, cfg)


def row_of(name, m, it, t, gap):
    head = [name, 10, 10, 500, 0, 0.1, 3600.0, 0.01, 1]
    if m in (1, 2):
        return head + [m + 1, 12.5, t, 3.0, 4.0, gap]
    return head + [2, 2, 5, it, 60, t, 3.0, 4.0, gap]


def spec(ctx, rows, req):
    """rows: (time, iterations, gap, solved)"""
    n = len(rows)
    nb = count([s for *_, s in rows])
    t = sum([r[0] for r in rows]) / float(n)
    g = sum([r[2] for r in rows]) / float(n)
    it = sum([r[1] for r in rows]) / float(n)
    return nb, t, g, it


def gapvar(ctx, name, req):
    g = ctx.real(name, 0)
    ctx.assume(zor(g <= req, g >= req + 1e-3))
    return g


def method(ctx, cfg):
    n, m, ids = cfg["n"], cfg["m"], cfg["ids"]
    w = World(ctx)
    fm = w.get("src.export.format_results", "format_method")
    req = ctx.real("required", 0, 1)
    data, rows = [], []
    for j in range(n):
        t, it, g = ctx.real("t_%d" % j, 0), ctx.int("it_%d" % j, 0), gapvar(ctx, "g_%d" % j, req)
        data.append((t, it, g, g <= req))
        rows.append(row_of("i", m, it, t, g))
    mt, nb, mg, entry = fm(rows, m, ids, req, [1, 2], [3, 4])
    check_entry(ctx, [data[j - 1] for j in ids], m, mt, nb, mg, [str(entry[0])] + list(entry[1:]), req)


def check_entry(ctx, sel, m, mt, nb, mg, entry, req):
    snb, t, g, it = spec(ctx, sel, req)
    n = len(sel)
    alls = snb == n
    ctx.check(ctx.eq(nb, snb), "the number of solved experiments is wrong")
    inf = lambda v: not E.issym(v) and v == INF
    if not inf(mt):
        ctx.check(alls, "a time is given though an experiment is not solved")
        ctx.check(inf(mg), "a gap is given together with a time")
        ctx.check(ctx.eq(mt, t), "the average time is wrong")
        ctx.check(entry[0].endswith("s") and "(" not in entry[0], "entry of a solved method is no time")
        ctx.check(close2(entry_value(ctx, entry[0]), t), "the displayed time is wrong")
    else:
        ctx.check(znot(alls), "no time is given though all experiments are solved")
        ctx.check(not inf(mg), "neither time nor gap")
        ctx.check(ctx.eq(mg, g), "the average gap is wrong")
        ctx.check(close2(entry_value(ctx, entry[0]), g), "the displayed gap is wrong")
        tail = entry[0][entry[0].rindex("("):]
        ctx.check("%" in entry[0], "entry of an unsolved method is no percentage")
        ctx.check(ctx.eq(entry_value(ctx, tail), snb), "the displayed number of solved experiments is wrong")
    ctx.check(len(entry) == (1 if m in (1, 2) else 2), "number of columns")
    if m in (3, 4):
        ctx.check(ctx.eq(entry[1], it), "the average number of iterations is wrong")


INST = ["ccmknap-10-10", "ccmknap-20-10", "ccmknap-40-30"]
SCEN = [500, 1000, 3000, 5000]
EPS = [0.1, 0.2]
REQ = 0.01


def filled(column):
    """The label that holds in each row."""
    out = []
    for v in column:
        out.append(v if v or not out else out[-1])
    return out


def script(ctx, cfg):
    w = World(ctx)
    i0, s0, e0, u0 = (cfg["cell"] % 3, (cfg["cell"] // 2) % 4, cfg["cell"] % 2, (cfg["cell"] // 3) % 2)
    data = {}
    for u in (0, 1):
        for i, ins in enumerate(INST):
            for s, sc in enumerate(SCEN):
                for e, ep in enumerate(EPS):
                    for m in (1, 2, 3, 4):
                        kind = cfg["pattern"][m - 1] if (i, s, e, u) == (i0, s0, e0, u0) else "f"
                        rows = []
                        for j in range(1, 6):
                            if kind == "x" and j == 3:
                                continue
                            t, it, g = 10.0 * m + j, 4 + m, 0.005
                            if kind == "s" and j == 2:
                                t = ctx.real("time_%d" % m, 0)
                            elif kind == "u" and j == 2:
                                g = gapvar(ctx, "gap_%d" % m, REQ)
                                t = ctx.real("time_%d" % m, 0)
                            elif kind in "123" and j <= int(kind):
                                g = ctx.real("gap_%d" % m, 0.02) if j == 1 else 0.5
                                t = 3600.0
                            rows.append((t, it, g, g <= REQ))
                            name = "%s-%d-%d" % (ins, sc, j)
                            w.put("/results/tables/%s-%d-%d-%d.csv" % (name, round(ep * 100), u, m), [row_of(name, m, it, t, g)])
                        data[u, i, s, e, m] = rows if len(rows) == 5 else None
    w.dirs |= {"/results", "/results/tables"}
    w.run_script("export_results.py", [])
    table = [l.split(",") for l in w.files["/results/%s-%d-result-table.csv" % (INST[i0], u0)].strip().splitlines()]
    ctx.check(len(table) == 8, "number of rows of the table")
    row = table[s0 + 4 * e0]
    ctx.check(len(row) == 9, "number of columns of the table")
    ctx.check([int(r[2]) for r in table] == SCEN * 2, "the row shows another number of scenarios")
    # labels hold until the next one
    ctx.check(filled([r[0] for r in table]) == ["\\textsf{%s}" % INST[i0].replace("ccmknap", "mk")] * 8, "a row is labelled with another instance")
    ctx.check(filled([r[1] for r in table]) == [str(EPS[0])] * 4 + [str(EPS[1])] * 4, "a row is labelled with another tolerance")
    cols = {1: [3], 2: [4], 3: [5, 6], 4: [7, 8]}
    bold = [m for m in cols if "textbf" in row[cols[m][0]]]
    ctx.check(len(bold) == 1, "not exactly one method is highlighted")
    val = {}
    for m in (1, 2, 3, 4):
        rows = data[u0, i0, s0, e0, m]
        if rows is None:
            ctx.check("s" not in row[cols[m][0]].replace("textbf", "") and "%" not in row[cols[m][0]], "a value is shown for missing experiments")
            val[m] = (False, None, 0, None)
            continue
        snb, t, g, it = spec(ctx, rows, REQ)
        e0_ = row[cols[m][0]].replace("\\textbf{", "").replace("}", "")
        val[m] = (snb == 5, t, snb, g)
        if e0_.endswith("s"):
            ctx.check(snb == 5, "a time is shown though an experiment is not solved")
            ctx.check(close2(entry_value(ctx, e0_), t), "the displayed time is wrong")
        else:
            ctx.check(snb < 5, "a gap is shown though all experiments are solved")
            ctx.check(close2(entry_value(ctx, e0_), g), "the displayed gap is wrong")
            ctx.check(ctx.eq(entry_value(ctx, e0_[e0_.rindex("("):]), snb), "the displayed number of solved experiments is wrong")
        if m in (3, 4):
            ctx.check(ctx.eq(entry_value(ctx, row[cols[m][1]]), it), "the average number of iterations is wrong")
    # the highlighted method is a best one
    h = bold[0]
    anysolved = zor([val[m][0] for m in val])
    for m in (1, 2, 3, 4):
        if m == h or val[m][1] is None:
            continue
        if val[h][1] is None:
            ctx.check(False, "a method without results is highlighted")
            continue
        ctx.check(zimp(anysolved, val[h][0]), "a method that did not solve all is highlighted though another did")
        ctx.check(zimp(zand(val[h][0], val[m][0]), ctx.le(val[h][1], val[m][1]).holds), "the fastest method is not highlighted")
        ctx.check(zimp(znot(anysolved), zor(val[h][2] > val[m][2], zand(val[h][2] == val[m][2], val[h][3] <= val[m][3] + 1e-9))),
                  "the method with most solved experiments and smallest gap is not highlighted")
