"""P29: the reported gap is well defined and truthful."""
from vf import engine as E
from vf.world import World, sym_instance

FUNCTIONS = ["Solver._compute_gap", "Solver.__init__", "AdaptivePartitioner.__init__", "MilpSolver.__init__",
             "Solver._get_computation_details"]
SOURCES = ["src/solver/Solver.py", "src/solver/AdaptivePartitioner.py", "src/solver/MilpSolver.py"]
ASSUMPTIONS = ["floats are exact reals"]
BOUNDS = "bounds are arbitrary reals 0 <= lower <= upper or missing; gap threshold an arbitrary real in [0,1]"
INF = float("inf")


def bounds(tier):
    return BOUNDS


def configs(tier):
    return [dict(cls=c, lb=l, ub=u) for c in ("base", "milp", "adaptive") for l in ("num", "-inf") for u in ("num", "inf")]


def harness(ctx, cfg):
    w = World(ctx)
    eps = 0.5
    inst, A, b, c = sym_instance(w, 2, 1, 1, True, eps)
    if cfg["cls"] == "base":
        s = w.get("src.solver.Solver", "Solver")(inst, 1800, 1e-4)
    elif cfg["cls"] == "milp":
        s = w.get("src.solver.MilpSolver", "MilpSolver")(inst)
    else:
        s = w.get("src.solver.AdaptivePartitioner", "AdaptivePartitioner")(
            inst, split_method="random", initial_partition_type="random")
    npf = cfg["cls"] != "milp"
    lb = ctx.real("lb", 0, npf=npf) if cfg["lb"] == "num" else -INF
    ub = ctx.real("ub", 0, npf=npf) if cfg["ub"] == "num" else INF
    if cfg["lb"] == "num" and cfg["ub"] == "num":
        ctx.assume(lb <= ub)
    s.vLB, s.vUB = lb, ub
    g = s._compute_gap()
    if cfg["lb"] != "num" or cfg["ub"] != "num":
        ctx.check(not E.issym(g) and g == INF, "gap is infinite when a bound is missing")
        return
    if lb == ub:
        ctx.check(ctx.eq(g, 0), "gap is zero for equal bounds")
    elif lb == 0:
        ctx.check(not E.issym(g) and g == INF, "gap is infinite for a zero lower bound")
    else:
        ctx.check(E.issym(g) or (g == g and g != INF), "gap is finite")
        ctx.check(ctx.eq(g * lb, ub - lb), "gap is (upper-lower)/lower")
    thr = ctx.real("thr", 0, 1)
    if g <= thr:
        ctx.check(ctx.le(ub - lb, thr * lb), "declared within gap but upper-lower > gap*lower")
