"""P33: the table of big-M times averages the measured times."""
from .common import *
from .P28 import close2, entry_value, row_of, INST, SCEN, EPS, filled

FUNCTIONS = ["export_results.py", "format_results.read_single_experiment", "format_results.read_table", "format_results.write_table"]
SOURCES = ["src/export/format_results.py", "export_results.py"]
ASSUMPTIONS = ["the exporter script is run with its own experimental parameters; the times of one row of the table are arbitrary nonnegative numbers, "
               "those of the other rows fixed and all different", "entries show two decimals", "floats are exact reals"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "one row of the table with 40 arbitrary times, every instance and number of scenarios, all files present or one or two of them missing"


def configs(tier):
    out = []
    for i in range(3):
        for s in range(4):
            out.append(dict(cell=[i, s], missing=[]))
    # (variable type, tolerance, method, index) without result file
    miss = [[1, 0, 1, 1], [0, 1, 1, 5], [1, 0, 2, 3], [0, 0, 2, 1], [1, 1, 2, 5], [0, 1, 2, 4], [0, 0, 1, 2], [0, 0, 3, 1], [1, 1, 4, 5]]
    for q, x in enumerate(miss):
        out.append(dict(cell=[q % 3, (q + 1) % 4], missing=[x]))
    out.append(dict(cell=[0, 3], missing=[miss[0], miss[2]]))
    out.append(dict(cell=[2, 0], missing=[miss[3], miss[5]]))
    out.append(dict(cell=[1, 1], missing=[miss[1], miss[2], miss[3]]))
    # a missing file of another row or instance changes nothing here
    out.append(dict(cell=[1, 2], missing=[miss[0]], at=[1, 1]))
    out.append(dict(cell=[1, 2], missing=[miss[2]], at=[0, 2]))
    return out


def harness(ctx, cfg):
    w = World(ctx)
    cell = tuple(cfg["cell"])
    at = tuple(cfg.get("at") or cell)
    missing = {tuple(x) for x in cfg["missing"]}
    times = {}
    for i, ins in enumerate(INST):
        for s, sc in enumerate(SCEN):
            for u in (0, 1):
                for e, ep in enumerate(EPS):
                    for m in (1, 2, 3, 4):
                        for j in range(1, 6):
                            if (i, s) == at and (u, e, m, j) in missing:
                                continue
                            name = "%s-%d-%d" % (ins, sc, j)
                            row = row_of(name, m, 7, 10.0 * m + j, 0.005)
                            if m <= 2:
                                t = 1.0 + 2 * j + 11 * e + 23 * u + 47 * m + 100 * s + 400 * i
                                if (i, s) == cell:
                                    t = ctx.real("t_%d_%d_%d_%d" % (u, e, m, j), 0)
                                row[10] = times[i, s, u, e, m, j] = t
                            w.put("/results/tables/%s-%d-%d-%d.csv" % (name, round(ep * 100), u, m), [row])
    w.dirs |= {"/results", "/results/tables"}
    w.run_script("export_results.py", [])
    for i, ins in enumerate(INST):
        table = [l.split(",") for l in w.files["/results/%s-big-m-times.csv" % ins].replace("\r", "").strip().splitlines()]
        ctx.check(len(table) == 4, "number of rows of the table")
        ctx.check(filled([r[0] for r in table]) == ["\\textsf{%s}" % ins.replace("ccmknap", "mk")] * 4, "a row is labelled with another instance")
        for s, row in enumerate(table):
            ctx.check(len(row) == 5, "number of columns of the table")
            ctx.check(int(row[1]) == SCEN[s], "the row shows another number of scenarios")
            for col, m, us in ((2, 1, (0, 1)), (3, 2, (1,)), (4, 2, (0,))):
                keys = [(i, s, u, e, m, j) for u in us for e in (0, 1) for j in range(1, 6)]
                if all(q in times for q in keys):
                    ctx.check(row[col].endswith("s"), "no time is shown though all experiments have results")
                    avg = sum([times[q] for q in keys]) / float(len(keys))
                    ctx.check(close2(entry_value(ctx, row[col]), avg), "the average big-M time is wrong (column %d)" % col)
                else:
                    ctx.check(not any(h.isdigit() for h in row[col]), "a time is shown though a result is missing")
