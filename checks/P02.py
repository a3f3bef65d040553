"""P02: the extended MILP method returns the optimum."""
from .e2e import *
from . import e2e

FUNCTIONS = ["MilpSolver.__init__", "MilpSolver.solve", "MilpSolver._compute_big_m", "Solver.solve_cclp_model", "UpperBounder.ahmed_et_al_bound",
             "Evaluator.get_all_single_scenario_costs", "BigMFinder.*", "BigMKnapsackModel.*", "CCLPModel.*", "DeterModel.*", "OptiModel.*"]
SOURCES = ["src/solver/MilpSolver.py", "src/solver/Solver.py", "src/UpperBounder.py", "src/Evaluator.py", "src/BigMFinder.py", "src/song_big_m.py",
           "src/optim/CCLPModel.py", "src/optim/OptiModel.py", "src/optim/DeterModel.py", "src/optim/BigMKnapsackModel.py",
           "src/instance/ChanceKnapInstance.py"]
ASSUMPTIONS = [a for a in e2e.ASSUMPTIONS if "split model" not in a and "random orders" not in a] + [
    "the violation table is arbitrary within what P13 guarantees",
    "the reported bound of the solve may exceed its objective by any amount (gap, time limit)"]
OPTS = dict(nl="mono")
BUDGET = dict(quick=120)


def bounds(tier):
    return "N<=%d scenarios, n<=%d items (continuous: 1, without Belotti and Song, for which see P11, P12, P15), m<=2, every budget" % ((3, 2) if tier == "quick" else (4, 3))


def configs(tier):
    out = []
    for meth in (None, "naive", "belotti", "song"):
        for N, eps in ((1, "0.1"), (2, "0.3"), (2, "0.5"), (3, "0.34"), (3, "0.67")) + (() if tier == "quick" else ((4, "0.25"), (4, "0.5"))):
            for n, m in ((2, 1), (1, 2)) if tier == "quick" or N > 3 else ((2, 1), (1, 2), (2, 2), (3, 1)):
                if tier == "quick" and N == 3 and meth == "belotti" and n == 2:
                    out.append(dict(meth=meth, N=N, eps=eps, n=n, m=m, cont=False, unitc=True))
                    continue
                out.append(dict(meth=meth, N=N, eps=eps, n=n, m=m, cont=False))
            if N == 1 or meth in ("belotti", "song"):        # continuous: P12 and P15 with P11
                continue
            out.append(dict(meth=meth, N=N, eps=eps, n=1, m=1, cont=True))
    return [dict(c, slack=True, solves=1, method="milp", gap=g) for g, c in zip([1e-4, 1e-6, 0.01] * len(out), out)]


def harness(ctx, cfg):
    def on_model(kind, model, info):
        if kind == "cclp":
            g = model._params.get("mipgap", 1e-4)
            ctx.check(ctx.le(g, cfg["gap"]), "the MIP gap of the solve exceeds the requested one")
    sim = Sim(ctx, cfg, on_model=on_model)
    S = sim.w.get("src.solver.MilpSolver", "MilpSolver")(sim.inst, time_limit=1000.0, gap=cfg["gap"])
    if cfg["meth"] is None:
        S.solve(use_big_m=False)
    else:
        S.solve(use_big_m=True, big_m_method=cfg["meth"])
    ctx.check(sim.ncclp == 1, "one extended problem is solved")
    r = [e for e in sim.log if e[0] == "cclp"][-1][1]
    x = list(S.xLB)
    ctx.check(len(x) == sim.n, "solution")
    ctx.check(zand([zand(v >= -1e-9, v <= 1 + 1e-9) for v in x]), "solution outside the box")
    ctx.check(chance(sim, x), "the solution violates more than floor(eps*N) scenarios")
    ctx.check(ctx.eq(dot(sim.c, x), S.vLB), "the lower bound is not the objective of the solution")
    ctx.check(ctx.eq(S.vLB, r[1]), "the lower bound is not the objective of the solve")
    ctx.check(ctx.eq(S.vUB, sim.bound), "the upper bound is not the bound of the solve")
    ok = []
    for y in (sim.pts if not sim.cont else [sim.ystar]):
        f = chance(sim, y, 0 if ctx.symbolic else -1e-9)
        ok.append(zimp(f, ctx.le(dot(sim.c, y), S.vLB + 1e-6).holds))
    ctx.check(zand(ok), "a feasible solution is better than the reported optimum")
