"""P03: bounds of the adaptive method are valid and monotone in every iteration."""
from .e2e import *
from . import e2e

FUNCTIONS, SOURCES = e2e.FUNCTIONS, e2e.SOURCES
ASSUMPTIONS = e2e.ASSUMPTIONS + ["comparisons of bounds up to 1e-6"]
OPTS = dict(nl="mono")
BUDGET = dict(quick=150)


def bounds(tier):
    return "see configurations: N<=4, n<=2, m<=2, budget 1 (thorough 2), up to %d partitioned models" % (2 if tier == "quick" else 3)


def variants(tier):
    """Options of the adaptive method."""
    out = []
    base = [dict(split="random", init="random", proj="rescaled_max_violation", bigM=None, merge=False, lazy=False),
            dict(split="random", init="cost", proj="counter", bigM="naive", merge=False, lazy=True),
            dict(split="random", init="random", proj="counter", bigM="belotti", merge=True, lazy=False),
            dict(split="cost", init="cost", proj="rescaled_max_violation", bigM="belotti", merge=True, lazy=True),
            dict(split="cost", init="random", proj="counter", bigM=None, merge=True, lazy=False)]
    return base


def configs(tier):
    out = []
    for q, v in enumerate(variants(tier)):
        for sz in (dict(N=3, m=1, n=2, eps="0.34", cont=False, solves=2), dict(N=4, m=1, n=2, eps="0.25", cont=False, solves=2, unitc=True, perm="rev" if tier == "quick" else "full")):
            if tier == "quick" and q in (0, 3) and sz["N"] == 4:
                continue
            out.append(dict(v, **sz))
        if v["bigM"] != "belotti":
            out.append(dict(v, N=3, m=1, n=1, eps="0.34", cont=True, solves=2))
    for q in (0, 3) if tier == "quick" else range(5):
        out.append(dict(variants(tier)[q], N=3, m=1, n=2, eps="0.34", cont=False, solves=2, unitc=True, stop=True))
    # answers within an arbitrary gap: the bound, not the incumbent, is what limits the optimum
    for q in (0, 2) if tier == "quick" else range(5):
        out.append(dict(variants(tier)[q], N=3, m=1, n=2, eps="0.34", cont=False, solves=2, unitc=True, early=True))
    return out


def harness(ctx, cfg):
    state = {}

    def on_model(kind, model, info):
        if "w" in state:
            state["w"].see(kind)
    sim = Sim(ctx, cfg, on_model=on_model)
    ap, go = adaptive(sim)
    wt = state["w"] = Watch(sim, ap)
    log = []
    store = ap.informer.store_iteration_info

    def spy(*a, **k):
        wt.see("log")
        store(*a, **k)
        log.append((ap.vLB, ap.vUB, len(ap.informer.iteration_info)))
    ap.informer.store_iteration_info = spy
    go()
    if not sim.gapped:
        # (a run closed by an answer within the solver's gap reports the bound on both sides)
        wt.see("end")
    check_log(ctx, sim, ap, log)


def check_log(ctx, sim, ap, log):
    info = ap.informer.iteration_info
    ctx.check(len(info) == len(log), "number of log lines")
    for (lo, hi, n), row in zip(log, info):
        for v, cell, what in ((lo, row[2], "lower"), (hi, row[3], "upper")):
            got = ctx.parse_token(cell) if ctx.symbolic else None
            if got is None:
                got = float(cell)
            fin = E.issym(v) or abs(v) != INF
            if fin:
                ctx.check(zand(got + v <= 0.00051, got + v >= -0.00051), "the log does not hold the %s bound" % what)
            else:
                ctx.check(not E.issym(got) and got == -v, "the log does not hold the %s bound" % what)
