"""P24: time budgets are respected."""
from .e2e import *
from . import e2e, P03

FUNCTIONS = ["TimeManager.*", "Solver._available_time", "Solver.solve_cclp_model", "MilpSolver.solve", "AdaptivePartitioner.solve"] + e2e.FUNCTIONS
SOURCES = ["src/TimeManager.py", "src/solver/MilpSolver.py"] + e2e.SOURCES
ASSUMPTIONS = e2e.ASSUMPTIONS + ["the clock never runs backwards", "end to end, time passes only while models are built and solved",
                                 "a partitioned problem requested with a zero limit ends at once and does not count as started"]
OPTS = dict(nl="mono")
BUDGET = dict(quick=150)


def bounds(tier):
    return "unit: %d clock readings, any limit; end to end: N<=3, n<=2, up to %d partitioned problems, arbitrary durations and limit" % (
        (5, 2) if tier == "quick" else (8, 3))


def configs(tier):
    out = [dict(kind="unit", R=5 if tier == "quick" else 8)]
    for meth in (None, "naive", "belotti", "song"):
        out.append(dict(kind="milp", meth=meth, N=2, m=1, n=1, eps="0.5", cont=False, unitc=True, method="milp", solves=1, stop=True))
    vs = P03.variants(tier)
    base = dict(kind="run", m=1, cont=False, unitc=True, perm="id", n=2, stop=True)
    for q in (0, 1, 2, 3, 4):
        out.append(dict(vs[q], **dict(base, N=3 if q != 3 or tier != "quick" else 2, eps="0.34", solves=2 if tier == "quick" else 3)))
    return [dict(c, clock=True) for c in out]


def harness(ctx, cfg):
    return dict(unit=unit, milp=milp, run=run)[cfg["kind"]](ctx, cfg)


def unit(ctx, cfg):
    t = [ctx.real("t_%d" % i) for i in range(cfg["R"] + 1)]
    for p, q in zip(t, t[1:]):
        ctx.assume(p <= q)
    lim = ctx.real("limit", 0)
    it = iter(t)
    w = World(ctx, clock=lambda: next(it))
    T = w.get("src.TimeManager", "TimeManager")
    T.set_limit_and_start_time(lim)
    ctx.check(ctx.eq(T.get_start_time(), t[0]), "start time")
    last = None
    for i in range(1, cfg["R"]):
        r = T.get_remaining_time()
        left = lim - (t[i] - t[0])
        ctx.check(ctx.eq(r, E.ite(left > 0, left, 0.0) if E.issym(left) else max(left, 0.0)), "remaining time")
        ctx.check(ctx.le(0.0, r), "negative remaining time")
        if last is not None:
            ctx.check(ctx.le(r, last), "remaining time increased")
        last = r
    T.set_final_time()
    ctx.check(ctx.eq(T.get_total_time(), t[cfg["R"]] - t[0]), "total time")


def limit_check(ctx, sim, model, lim):
    tl = model._params.get("timelimit")
    ctx.check(tl is not None, "no time limit set")
    left = lim - sim.now
    left = E.ite(left > 0, left, 0.0) if E.issym(left) else max(left, 0.0)
    ctx.check(ctx.le(0.0, tl), "negative time limit")
    ctx.check(ctx.le(tl, left), "the time limit of a solve exceeds the time remaining")
    return tl


def milp(ctx, cfg):
    lim = ctx.real("limit", 0)

    def on_model(kind, model, info):
        if kind == "cclp":
            limit_check(ctx, sim, model, lim)
            n.append(1)
    n = []
    sim = Sim(ctx, cfg, on_model=on_model)
    S = sim.w.get("src.solver.MilpSolver", "MilpSolver")(sim.inst, time_limit=lim)
    if cfg["meth"] is None:
        S.solve(use_big_m=False)
    else:
        S.solve(use_big_m=True, big_m_method=cfg["meth"])
    ctx.check(n == [1], "one solve")


def run(ctx, cfg):
    lim = ctx.real("limit", 0)
    st = dict(over=False, zero=0)

    def on_model(kind, model, info):
        if kind == "cclp":
            tl = limit_check(ctx, sim, model, lim)
            if st["over"]:
                st["zero"] += 1
                ctx.check(ctx.le(tl, 0.0), "a partitioned problem is started after the time ran out")
                ctx.check(st["zero"] == 1, "partitioned problems are requested after the time ran out")
    sim = Sim(ctx, cfg, on_model=on_model)
    T = sim.w.get("src.TimeManager", "TimeManager")
    real = T.get_remaining_time

    def remaining(*a):
        r = real(*a)
        if bool(r <= 0):
            st["over"] = True
        return r
    T.get_remaining_time = remaining
    ap, go = adaptive(sim, time_limit=lim)

    def guard(obj, name, what):
        f = getattr(obj, name)

        def g(*a, **k):
            ctx.check(not st["over"], "a %s is started after the time ran out" % what)
            return f(*a, **k)
        setattr(obj, name, g)
    guard(ap.refiner, "refine", "split")
    guard(ap.lowerbounder, "deterministic_bound", "lower-bound step")
    go()
    ctx.check(True, "run")
