"""P09: every partitioned problem excludes the previous relaxed solution."""
from .e2e import *
from . import e2e, P03

FUNCTIONS, SOURCES = e2e.FUNCTIONS, e2e.SOURCES
ASSUMPTIONS = e2e.ASSUMPTIONS
OPTS = dict(nl="mono")
BUDGET = dict(quick=170)


def bounds(tier):
    return "see configurations: N<=4 (merges of several subsets: 6; thorough 5), n<=2, budget <=2, up to %d partitioned problems" % (2 if tier == "quick" else 3)


def configs(tier):
    out = []
    for q, v in enumerate(P03.variants(tier)):
        out.append(dict(v, N=3, m=1, n=2, eps="0.34", cont=False, solves=2, unitc=q != 3))
        out.append(dict(v, N=4, m=1, n=2, eps="0.25", cont=False, solves=2, unitc=True, perm="rev" if q in (1, 3) else "id"))
        if v["bigM"] != "belotti":
            out.append(dict(v, N=3, m=1, n=1, eps="0.34", cont=True, solves=2))
        if q in (1, 3, 4) or tier != "quick":
            out.append(dict(v, N=4, m=1, n=2, eps="0.5", cont=False, solves=2, unitc=True, perm="id"))
        if tier != "quick" and q in (2, 3):
            out.append(dict(v, N=5, m=1, n=2, eps="0.4", cont=False, solves=1, unitc=True, perm="id"))
    # merges of several subsets, from given partitions: item 0 is admitted by fixed scenarios, item 1 by any
    v = dict(split="random", init="random", proj="counter", bigM=None, merge=True, lazy=False, m=1, n=2, cont=False, fam="unit", perm="id", solves=1, iters=1)

    def adm(N, S):
        return [[int(s in S), None] for s in range(N)]
    out.append(dict(v, N=5, eps="0.4", part=[[3], [0, 1, 2], [4]], adm=adm(5, (3, 4))))
    out.append(dict(v, N=5, eps="0.4", part=[[3], [4], [0, 1, 2]], adm=adm(5, (3, 4))))
    out.append(dict(v, N=6, eps="0.34", part=[[0, 1, 2], [3], [4], [5]], adm=adm(6, (3, 4, 5)), solves=2))
    out.append(dict(v, N=6, eps="0.34", part=[[3], [0, 1, 2], [5], [4]], adm=adm(6, (3, 4, 5)), solves=2))
    return out


def harness(ctx, cfg):
    st = dict(x=None)

    def on_model(kind, model, info):
        if kind == "cclp" and st.get("ap") is not None:
            see(ctx, sim, st["ap"], model, info, st["x"])
    sim = Sim(ctx, cfg, on_model=on_model)
    ap, go = adaptive(sim)
    st["ap"] = ap
    real = ap.lowerbounder.deterministic_bound

    def spy(x, *a, **k):
        st["x"] = [v for v in x]
        return real(x, *a, **k)
    ap.lowerbounder.deterministic_bound = spy
    go()
    ctx.check(st["x"] is None or len(st["x"]) == sim.n, "relaxed solution")
    check_costs(ctx, sim, ap)


def see(ctx, sim, ap, model, info, x):
    xs, zs, analyse = info
    part = [list(map(int, g)) for g in ap.partition]
    is_partition(ctx, part, sim.N, "partition", None)
    ctx.check(len(part) >= sim.k + 1, "fewer than floor(eps*N)+1 subsets")
    ctx.check(len(zs) == len(part), "one indicator per subset of the partition")
    check_costs(ctx, sim, ap)
    if x is None:
        return
    tol = 1e-6
    bad = count([znot(zand([sat(sim.A[s], sim.b, x, tol) for s in g])) for g in part])
    ctx.check(bad >= sim.k + 1, "the previous relaxed solution is still within the budget of the new partition")
    ctx.check(znot(analyse([float(v) if not E.issym(v) else v for v in x])[0]), "the new partitioned problem admits the previous relaxed solution")


def check_costs(ctx, sim, ap):
    part = [list(map(int, g)) for g in ap.partition]
    ctx.check(len(ap.subset_costs) == len(part) and len(ap.subset_sols) == len(part), "one cost and solution per subset")
    for g, cost, sol in zip(part, ap.subset_costs, ap.subset_sols):
        ctx.check(len(sol) == sim.n, "subset solution")
        ctx.check(ctx.eq(dot(sim.c, list(sol)), cost), "the stored solution of a subset does not attain its stored cost")
        ctx.check(zand([sat(sim.A[s], sim.b, list(sol), 0 if ctx.symbolic else 1e-6) for s in g]), "the stored solution of a subset violates it")
        for y in (sim.pts if not sim.cont else sim.pts[:1]):
            f = zand([sat(sim.A[s], sim.b, y, 0 if ctx.symbolic else -1e-9) for s in g])
            ctx.check(zimp(f, ctx.le(dot(sim.c, y), cost + 1e-6).holds), "the stored cost of a subset is not its optimum")
