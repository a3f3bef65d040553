"""P32: the bounds trace of a MILP run is faithful."""
from .common import *
from vf import grb

FUNCTIONS = ["OptiModel.solve", "OptiModel._save_bounds_callback", "OptiModel._save_bounds_to_file", "Solver.solve_cclp_model", "MilpSolver.solve",
             "TimeManager.get_remaining_time", "TimeManager.set_limit_and_start_time"]
SOURCES = ["src/optim/OptiModel.py", "src/solver/Solver.py", "src/solver/MilpSolver.py", "src/TimeManager.py"]
ASSUMPTIONS = ["the clock never runs backwards, and no time passes while the extended model is being built (the time of the build is not part of the trace)",
               "the time spent before the solve is below the limit", "the solver reports progress through MIP callbacks with any incumbent value and bound",
               "floats are exact reals"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "up to %d callback invocations (progress or other), arbitrary incumbents, bounds and times, normal end, time limit with and without solution, or " \
        "interruption, two runs in a row; big-M methods none, naive and Song" % (3 if tier == "quick" else 4)


def configs(tier):
    out = []
    for ev in range(0, 4 if tier == "quick" else 5):
        for end in ("optimal", "interrupted", "limit", "limit-none"):
            for method in ("none", "naive", "song") if ev == 2 else ("none",) if ev != 1 else ("naive",):
                out.append(dict(events=ev, end=end, method=method))
    # two runs in one process: the second trace holds nothing of the first
    for end in ("optimal", "interrupted"):
        out.append(dict(events=1, end=end, method="none", runs=2))
    return out


def harness(ctx, cfg):
    now = [ctx.real("T0", 0)]
    start = [now[0]]

    run_no = [0]

    def later(name):
        now[0] = now[0] + ctx.real("%s_%d" % (name, run_no[0]), 0)
    seen = []

    def oracle(model, cb):
        ctx.check(cb is not None, "the solve is not observed")
        for t in range(cfg["events"]):
            later("d_%d" % t)
            if ctx.choice(2, "event"):
                model.__dict__["_cbdata"] = {}
                cb(model, (grb.GRB.Callback.POLLING, grb.GRB.Callback.SIMPLEX, grb.GRB.Callback.MESSAGE)[t % 3])
            else:
                o, d = ctx.real("obj_%d_%d" % (t, run_no[0])), ctx.real("bnd_%d_%d" % (t, run_no[0]))
                model.__dict__["_cbdata"] = {"MIP_OBJBST": o, "MIP_OBJBND": d, "MIP_SOLCNT": 1, "MIP_NODCNT": 0.0, "RUNTIME": 0.0}
                seen.append((o, d, now[0] - start[0]))
                cb(model, grb.GRB.Callback.MIP)
        obj = ctx.real("obj_%d" % run_no[0])
        vals = {v._id: 0.0 for v in model._vars}
        st = {"optimal": 2, "interrupted": 11, "limit": 9, "limit-none": 9}[cfg["end"]]
        if cfg["end"] in ("interrupted", "limit-none"):
            model.set_infeasible(st)
            model.__dict__["_objbound"] = ctx.real("bnd_%d" % run_no[0])
        else:
            model.set_solution(vals, obj, ctx.real("bnd_%d" % run_no[0]), st)

    def viol(A, b):
        later("bigM")
        np = w.shims["numpy"]
        return np.ones((2, 2, 1))
    w = World(ctx, oracle=oracle, clock=lambda: now[0], violations=viol)
    inst, A, b, c = sym_instance(w, 2, 1, 1, False, 0.5)
    w.dirs.add("/out")
    for q in range(cfg.get("runs", 1)):
        run_no[0], start[0] = q, now[0]
        seen.clear()
        run(ctx, cfg, w, inst, now, later, seen, q)
    ctx.check(True, "end")


def run(ctx, cfg, w, inst, now, later, seen, q):
    T0 = now[0]
    w.files.pop("/out/trace.csv", None)
    limit = ctx.real("limit_%d" % q, 1)
    ms = w.get("src.solver.MilpSolver", "MilpSolver")(inst, time_limit=limit)
    later("before")
    ctx.assume(now[0] - T0 + (ctx.real("bigM_%d" % q, 0) if cfg["method"] == "song" else 0) < limit)
    interrupted = False
    try:
        ms.solve(use_big_m=cfg["method"] != "none", big_m_method="naive" if cfg["method"] == "none" else cfg["method"], save_bounds=True,
                 path="/out/trace.csv")
    except KeyboardInterrupt:
        interrupted = True
    ctx.check(interrupted == (cfg["end"] == "interrupted"), "the interruption is not propagated" if not interrupted else "interrupted without reason")
    ctx.check("/out/trace.csv" in w.files, "no trace is written")
    rows = [r.split(",") for r in w.files["/out/trace.csv"].replace("\r", "").split("\n") if r]
    want, last = [], None
    for o, d, t in seen:
        same = last is not None and bool(o == last[0]) and bool(d == last[1])
        if not same:
            want.append((o, d, t))
        last = (o, d)
    ctx.check(len(rows) == len(want), "the trace has %s lines than changes" % ("more" if len(rows) > len(want) else "fewer"))
    for r, (o, d, t) in zip(rows, want):
        ctx.check(len(r) == 3, "a line of the trace has not three values")
        a = [w.tofloat(v) for v in r]
        ctx.check(ctx.eq(a[0], t), "the time of a line is not the time since the start of the run")
        ctx.check(ctx.eq(a[1], -o), "the incumbent value of a line is wrong")
        ctx.check(ctx.eq(a[2], -d), "the bound of a line is wrong")
