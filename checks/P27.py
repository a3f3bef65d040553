"""P27: result files written by the driver are read back by the exporter."""
import inspect

from .e2e import *
from . import e2e

FUNCTIONS = ["main.py (whole script)", "format_results.read_single_experiment", "format_results.read_table", "Informer.adaptive_details",
             "Informer.store_iteration_info", "AdaptivePartitioner.write_all_computation_details", "AdaptivePartitioner.write_iteration_details",
             "MilpSolver.write_all_computation_details", "Solver._get_computation_details", "TimeManager.*"] + e2e.FUNCTIONS
SOURCES = ["main.py", "src/export/format_results.py", "src/Informer.py", "src/TimeManager.py", "src/solver/MilpSolver.py"] + e2e.SOURCES
ASSUMPTIONS = e2e.ASSUMPTIONS + [
    "time passes only while models are built and solved; the solver may stop at a time limit with or without a solution, and an interruption "
    "(methods 3 and 4) arrives while a model is being solved, not while the method is constructed",
    "the violation table is arbitrary within what P13 guarantees"]
OPTS = dict(nl="mono")
BUDGET = dict(quick=150)


def bounds(tier):
    return "methods 1-4, binary (N<=3, n<=2) and continuous (N<=2, n=1), up to %d partitioned problems, arbitrary data and durations, normal end, stop at the " \
        "time limit with and without solution, interruption at any solve; file names for every epsilon k/100, 0<=k<=99" % (1 if tier == "quick" else 2)


def configs(tier):
    out = [dict(meth=0, cont=False, N=2, m=1, n=2, eps="0.5", stop=True), dict(meth=0, cont=True, N=2, m=1, n=1, eps="0.2")]
    for meth in (1, 2, 3, 4):
        for cont in (False, True):
            for N, eps in ((1, "0.1"), (2, "0.2"), (2, "0.5"), (3, "0.34")):
                if cont and (N == 3 or meth == 2 and N == 2) and tier == "quick":
                    continue
                out.append(dict(meth=meth, cont=cont, N=N, m=1, n=1 if cont else 2, eps=eps, unitc=N == 3 and not cont,
                                **({} if meth <= 2 and not cont else dict(clock=True))))
            if not cont:
                out.append(dict(meth=meth, cont=False, N=2, m=1, n=1, eps="0.5", stop=True, clock=True, intr=meth >= 3, unitc=True))
                if meth >= 3:
                    out.append(dict(meth=meth, cont=False, N=3, m=1, n=2, eps="0.34", stop=True, intr=True, clock=True, unitc=True))
                else:
                    out.append(dict(meth=meth, cont=False, N=3, m=2, n=1, eps="0.34", stop=True, clock=True, unitc=True))
        out.append(dict(meth=meth, cont=meth % 2 == 1, N=1, m=1, n=1, eps=None, unitc=True, names=True))
    return [dict(dict(clock=True), solves=1 if tier == "quick" else 2, perm="id", method="ap", init="random" if c["meth"] == 3 else "cost",
                 split="random" if c["meth"] == 3 else "cost", **{**c, "eps": c["eps"] or "0"}) if "clock" not in c else
            dict(c, solves=1 if tier == "quick" else 2, perm="id", method="ap", init="random" if c["meth"] == 3 else "cost",
                 split="random" if c["meth"] == 3 else "cost") for c in out]


OUT = "/results/tables/"


def harness(ctx, cfg):
    cfg = dict(cfg)
    if cfg.get("names"):
        k = ctx.choice(100, "k")
        cfg["eps"] = "%d.%02d" % (k // 100, k % 100)
        cfg["clock"] = False
    sim = Sim(ctx, cfg)
    w, meth = sim.w, cfg["meth"]
    # what the constructor does for initial random partitions is not what the simulation numbers as its first permutation
    w.files["/in/set/ccmknap-1-2-%d-4.csv" % cfg["N"]] = w.files["/data/inst.csv"]
    if meth >= 3:
        AP = w.get("src.solver.AdaptivePartitioner", "AdaptivePartitioner")
        solve = AP.solve

        def spy(ap, *a, **k):
            try:
                inspect.signature(solve).bind(ap, *a, **k)
            except TypeError as ex:
                ctx.fail("the driver's call of solve fails: %s" % ex)
            sim.insolve = True
            refine = ap.refiner.refine

            def counted(*a, **k):
                sim.niter += 1
                if sim.niter > cfg["solves"] + 1:
                    raise E.Prune()
                return refine(*a, **k)
            ap.refiner.refine = counted
            try:
                return solve(ap, *a, **k)
            finally:
                sim.insolve = False
        AP.solve = spy
    if meth == 0:
        return plain(ctx, sim, cfg)
    mod = w.run_script("main.py", ["/in/set/ccmknap-1-2-%d-4.csv" % cfg["N"], "1" if cfg["cont"] else "0", cfg["eps"], str(meth), OUT])
    M_ = mod.method
    read = w.get("src.export.format_results", "read_single_experiment")
    e = float(cfg["eps"])
    args = lambda e=e, c=int(cfg["cont"]), m=meth: read(OUT, "ccmknap-1-2", cfg["N"], 4, e, c, m)
    row = cells(ctx, w, sim, cfg)
    got = args()
    ctx.check(len(got) > 0, "the exporter does not find the result file")
    ctx.check(len(got) == len(row), "the exporter reads another file")
    if cfg.get("names"):
        for k2 in range(100):
            if k2 != k:
                ctx.check(args(e=k2 / 100) == [], "the results of two tolerances share a file")
        for c2 in (0, 1):
            for m2 in (1, 2, 3, 4):
                if (c2, m2) != (int(cfg["cont"]), meth):
                    ctx.check(args(c=c2, m=m2) == [], "the results of two experiments share a file")
    # instance
    ctx.check(got[0] == "ccmknap-1-2-%d-4" % cfg["N"], "instance name in the row")
    for i, v in enumerate((sim.n, sim.m, sim.N, int(cfg["cont"]))):
        ctx.check(got[1 + i] == v, "instance data in the row")
    ctx.check(ctx.eq(got[5], e), "tolerance in the row")
    ctx.check(ctx.eq(got[6], 3600.0), "time limit in the row")
    ctx.check(ctx.eq(got[7], 0.01), "required gap in the row")
    ctx.check(got[8] == 1, "big-M flag in the row")
    if meth <= 2:
        ctx.check(len(got) == 15, "number of columns")
        ctx.check(got[9] == (3 if meth == 1 else 2), "big-M method in the row")
        big = sim.t_cclp if sim.t_cclp is not None else 0.0
        if not cfg.get("names"):
            ctx.check(ctx.eq(got[10], clip(big, 3600.0)), "big-M time in the row")
    else:
        ctx.check(len(got) == 18, "number of columns")
        codes = dict(random=2, cost=3)
        ctx.check(got[9] == codes[cfg["split"]] and got[10] == codes[cfg["init"]] and got[11] == 5, "options in the row")
        it = got[-6]
        ctx.check(zor(it == sim.niter + 1, zand(it == sim.niter, sim.expired()), it == 0 if sim.interrupted else False), "number of iterations in the row")
        sizes = len(M_.partition)
        ctx.check(got[-5] == sizes, "number of subsets in the row")
    if not cfg.get("names"):
        ctx.check(near(ctx, got[-4], sim.now), "solve time in the row")
    shown(ctx, got[-3], M_.vLB, "lower bound in the row")
    shown(ctx, got[-2], M_.vUB, "upper bound in the row")
    g = M_._compute_gap()
    shown(ctx, got[-1], g * 100.0, "gap in the row")
    base = OUT + "ccmknap-1-2-%d-4-" % cfg["N"]
    files = [f for f in w.files if f.startswith(OUT)]
    ctx.check(len(files) == 2 and all(f.startswith(base) for f in files), "files written")
    if meth >= 3:
        iters(ctx, w, sim, M_, [f for f in files if "iter" in f][0])


def plain(ctx, sim, cfg):
    """An extended model solved without big M writes its row too."""
    w = sim.w
    S = w.get("src.solver.MilpSolver", "MilpSolver")(sim.inst, time_limit=3600, gap=1e-4)
    S.solve(use_big_m=False)
    w.get("src.TimeManager", "TimeManager").set_final_time()
    w.dirs.add("/out")
    S.write_all_computation_details("/out/inst-2-2-50-0-1.csv")
    got = w.get("src.export.format_results", "read_single_experiment")("/out/", "inst", 2, 2, 0.5, 0, 1)
    ctx.check(len(got) == 15, "number of columns")
    ctx.check(got[8] == 0, "big-M flag in the row")
    shown(ctx, got[-3], S.vLB, "lower bound in the row")
    shown(ctx, got[-2], S.vUB, "upper bound in the row")
    shown(ctx, got[-1], S._compute_gap() * 100.0, "gap in the row")
    ctx.check(near(ctx, got[-4], sim.now), "solve time in the row")


def iters(ctx, w, sim, ap, f):
    """The iteration file holds the iteration log."""
    rows = [r.split(",") for r in w.files[f].replace("\r", "").split("\n") if r]
    info = ap.informer.iteration_info
    ctx.check(len(rows) == len(info), "lines of the iteration file")
    for r, q in zip(rows, info):
        ctx.check(len(r) == 6 and [str(v) for v in q] == r, "line of the iteration file")
    n = 0
    for r in rows:
        ctx.check(float(r[0]) >= n, "iteration numbers decrease")
        n = float(r[0])


def cells(ctx, w, sim, cfg):
    fs = [f for f in w.files if f.startswith(OUT) and "iter" not in f]
    ctx.check(len(fs) == 1, "one result file is written")
    rows = [r for r in w.files[fs[0]].replace("\r", "").split("\n") if r]
    ctx.check(len(rows) == 1, "one result row is written")
    return rows[0].split(",")


def clip(v, hi):
    return E.ite(v < hi, v, hi) if E.issym(v) else min(v, hi)


def near(ctx, got, v):
    return zand(got - v <= 0.00051, v - got <= 0.00051)


def shown(ctx, got, v, msg):
    if E.issym(v) or abs(v) != INF:
        ctx.check(near(ctx, got, v) if E.issym(got) or abs(got) != INF else False, msg)
    else:
        ctx.check(not E.issym(got) and got == v, msg)
