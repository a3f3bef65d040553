"""P30: warm starts refer to the surviving subsets."""
from .e2e import *
from . import e2e, P03

FUNCTIONS = ["Warmstarter.get_z_start", "UpperBounder.partition_bound", "CCLPModel.build(z_start)"] + e2e.FUNCTIONS
SOURCES = e2e.SOURCES
ASSUMPTIONS = e2e.ASSUMPTIONS + ["a merged subset stands at the position of the lowest of the subsets it was merged from"]
OPTS = dict(nl="mono")
BUDGET = dict(quick=150)


def bounds(tier):
    return "unit: up to %d selected subsets, every deleted set, arbitrary indicators; end to end: N<=%d, up to 3 partitioned problems with arbitrary optimal indicators" % (
        6 if tier == "quick" else 8, 4 if tier == "quick" else 5)


def configs(tier):
    out = [dict(kind="unit", P=p) for p in range(1, 7 if tier == "quick" else 9)]
    vs = P03.variants(tier)
    base = dict(kind="run", m=1, cont=False, unitc=True, perm="id", n=2, z="any")
    for q in (0, 2, 3, 4):
        out.append(dict(vs[q], **dict(base, N=3, eps="0.34", solves=3)))
    fam = dict(base, fam="unit", unitc=False, n=3)
    for q in (2, 4):
        out.append(dict(vs[q], **dict(fam, bigM=None, N=3, eps="0.34", solves=1, iters=2)))
    for q in (2, 3):
        out.append(dict(vs[q], **dict(base, N=4, eps="0.25", solves=3 if tier != "quick" else 2)))
        if tier != "quick":
            out.append(dict(vs[q], **dict(base, N=4, eps="0.5", solves=3)))
    return out


def harness(ctx, cfg):
    return unit(ctx, cfg) if cfg["kind"] == "unit" else run(ctx, cfg)


def unit(ctx, cfg):
    w = World(ctx)
    P = cfg["P"]
    W = w.get("src.Warmstarter", "Warmstarter")()
    z = [M.binary(ctx, "z_%d" % i) for i in range(P)]
    gone = [i for i in range(P) if ctx.choice(2, "del_%d" % i)]
    got = W.get_z_start(w.shims["numpy"].array(z), list(gone))
    left = [i for i in range(P) if i not in gone]
    for pos, v in dict(got).items():
        ctx.check(0 <= int(pos) < len(left), "position out of range")
    for pos, i in enumerate(left):
        v = got[pos] if pos in got else 0
        ctx.check(ctx.iff(v == 1, z[i] == 1), "warm start differs from the surviving subset's indicator")


def run(ctx, cfg):
    st = dict(sel=None, split=None)

    def on_model(kind, model, info):
        if kind != "cclp" or "ap" not in st:
            return
        ap, (xs, zs, _) = st["ap"], info
        part = [sorted(map(int, g)) for g in ap.partition]
        ctx.check(len(zs) == len(part), "one indicator per subset")
        old = st["split"] if st["split"] is not None else part
        src = [min(i for i, g in enumerate(old) if g and set(g) <= set(p)) if any(set(g) <= set(p) for g in old if g) else None for p in part]
        ctx.check(all(s is not None for s in src), "a subset that comes from none of the split partition's")
        for j, v in enumerate(zs):
            s = src[j]
            want = s < len(st["sel"]) and st["sel"][s]
            got = v.start
            ctx.check((got is not None and bool(got == 1)) == bool(want), "warm start of subset %d" % j)

    sim = Sim(ctx, cfg, on_model=on_model)
    ap, go = adaptive(sim)
    refine = ap.refiner.refine

    def r_spy(*a, **k):
        nb, p = refine(*a, **k)
        st["split"] = [sorted(map(int, g)) for g in p]
        return nb, p
    ap.refiner.refine = r_spy
    low = ap.lowerbounder.deterministic_bound

    def l_spy(x, *a, **k):
        # indicators of the upper-bound solution just found
        if sim.ncclp == 0:
            st["sel"] = st["first"]
        else:
            st["sel"] = [bool(v == 1) for v in [e for e in sim.log if e[0] == "cclp"][-1][2]]
        return low(x, *a, **k)
    ap.lowerbounder.deterministic_bound = l_spy
    first = ap.upperbounder.first_iteration_bound

    def f_spy(*a, **k):
        r = first(*a, **k)
        st["first"] = [bool(v == 1) for v in r[1]]
        return r
    ap.upperbounder.first_iteration_bound = f_spy
    st["ap"] = ap
    go()
    ctx.check(True, "run")
