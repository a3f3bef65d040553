"""P01: the adaptive method ends with a correct optimum."""
from .e2e import *
from . import e2e, P03

FUNCTIONS, SOURCES = e2e.FUNCTIONS, e2e.SOURCES
ASSUMPTIONS = e2e.ASSUMPTIONS + ["comparisons of bounds up to 1e-6", "runs that need more partitioned problems than the bound are cut off"]
OPTS = dict(nl="mono")
BUDGET = dict(quick=260)


def bounds(tier):
    return "see configurations: N<=4, n<=2, m<=2, budget <=2, runs of up to 3 partitioned problems (complete for N=3), relative gap 1e-4 or 0.2"


def configs(tier):
    out = []
    for q, v in enumerate(P03.variants(tier)):
        v = dict(v, perm="rev")
        out.append(dict(v, N=3, m=1, n=2, eps="0.34", cont=False, solves=3, gap=1e-4, unitc=q in (0, 2)))
        if q in (0, 3) or tier != "quick":
            out.append(dict(v, N=3, m=1, n=2, eps="0.34", cont=False, solves=2, gap=0.2))
        if q in (1, 3) or tier != "quick":
            out.append(dict(v, N=4, m=1, n=2, eps="0.25", cont=False, solves=2, unitc=True, gap=1e-4, perm="id"))
        if q in (0, 3) or tier != "quick":
            out.append(dict(v, N=4, m=1, n=2, eps="0.5", cont=False, solves=2, unitc=True, gap=1e-4, perm="id"))
        if v["bigM"] != "belotti":
            out.append(dict(v, N=3, m=1, n=1, eps="0.34", cont=True, solves=2, gap=1e-4))
        if q in ((2, 3) if tier == "quick" else range(5)):
            # answers within the gap set for each model; objectives of several thousands, so that a gap of 1e-4 is wider than 0.1
            out.append(dict(v, N=3, m=1, n=2, eps="0.34", cont=False, solves=2, gap=1e-6, gaps=True, cvec=[2000.1, 2000.0]))
        if q in ((0, 3) if tier == "quick" else range(5)):
            # equal objectives: the optimum of the next problem may equal the last bound, and the new bound lie a little above it
            out.append(dict(v, N=3, m=1, n=2, eps="0.34", cont=False, solves=2, gap=1e-6, gaps=True, cvec=[2000.0, 2000.0]))
        if q == 1:
            out.append(dict(v, N=2, m=2, n=2, eps="0", cont=False, solves=3, unitc=True, gap=1e-4))
            out.append(dict(v, N=1, m=1, n=2, eps="0.1", cont=False, solves=3, gap=1e-4))
    return out


def harness(ctx, cfg):
    sim = Sim(ctx, cfg)
    if cfg.get("gaps"):
        sim.tol = 1e-3
    ap, go = adaptive(sim, gap=cfg["gap"])
    go()
    wt = Watch(sim, ap)
    wt.see("end")
    lo, hi = ap.vLB, ap.vUB
    ctx.check((E.issym(hi) or hi < INF) and (E.issym(lo) or lo > -INF), "ended without bounds")
    ctx.check(ctx.le(lo, hi + sim.tol), "lower bound above the upper bound")
    ctx.check(ctx.le(hi, lo + cfg["gap"] * lo + sim.tol), "ended before the bounds were within the requested gap")
