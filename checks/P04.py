"""P04: the feasibility verdict is exact."""
from .common import *

FUNCTIONS = ["ChanceKnapInstance.is_feasible", "ChanceKnapInstance.check_feasibility", "ChanceKnapInstance._get_scenario_infeasibility",
             "ChanceKnapInstance._get_infeasible_scenarios", "ChanceKnapInstance.get_feasible_scenarios",
             "ChanceKnapInstance.get_sum_infeasibility", "ChanceInstance.parse_data"]
SOURCES = ["src/instance/ChanceKnapInstance.py", "src/instance/ChanceInstance.py"]
ASSUMPTIONS = ["products of data and point are abstracted by a shared variable per monomial (sound; counterexamples are exact)",
               "floats are exact reals", "a violation strictly between 0.5e-6 and 2e-6 may be classified either way"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "N<=%d scenarios, m<=2 constraints, n<=2 variables, arbitrary nonnegative data, arbitrary real points, epsilon from a list, two successive points" % (4 if tier == "quick" else 5)


def configs(tier):
    out = []
    for N, m, n in ([(1, 2, 1), (2, 1, 1), (2, 1, 2), (3, 1, 1)] if tier == "quick" else
                    [(1, 2, 2), (1, 3, 1), (2, 2, 1), (2, 1, 2), (3, 1, 2), (4, 1, 1), (3, 2, 1), (5, 1, 1)]):
        for eps in ("0", "0.3", "0.5", "0.9"):
            out.append(dict(N=N, m=m, n=n, eps=eps, cont=True, two=(N <= 2)))
    out.append(dict(N=4, m=1, n=1, eps="0.5", cont=False, two=False))
    out.append(dict(N=3, m=1, n=2, eps="0.34", cont=False, two=False))
    return out


def harness(ctx, cfg):
    w = World(ctx)
    N, m, n = cfg["N"], cfg["m"], cfg["n"]
    inst, A, b, c = sym_instance(w, N, m, n, cfg["cont"], float(cfg["eps"]))
    k = kfloor(cfg["eps"], N)
    pts = []
    if cfg["two"]:
        pts.append([ctx.real("y_%d" % j, npf=True) for j in range(n)])
    pts.append([ctx.real("x_%d" % j, npf=True) for j in range(n)])
    np = w.shims["numpy"]
    for p in pts:
        viol = [[dot(A[s][i], p) - b[i] for i in range(m)] for s in range(N)]
        verdict = inst.check_feasibility(np.array(p))
        flags = [bool(v) for v in inst.is_scenario_infeasible]
        lst = [int(v) for v in inst.infeasible_scenarios]
        mask = [bool(v) for v in inst.get_feasible_scenarios()]
        meas = list(inst.get_sum_infeasibility())
        ctx.check(len(flags) == N and len(mask) == N and len(meas) == N, "one flag, mask entry and measure per scenario")
        for s in range(N):
            bad = zor([v > 2e-6 for v in viol[s]])
            good = zand([v <= 5e-7 for v in viol[s]])
            ctx.check(zimp(bad, flags[s]), "violated scenario not reported infeasible")
            ctx.check(zimp(good, not flags[s]), "satisfied scenario reported infeasible")
            ctx.check(mask[s] == (not flags[s]), "feasible mask disagrees with flags")
            ctx.check(zb(meas[s] > 0) if flags[s] else zb(meas[s] == 0), "violation measure disagrees with flags")
        ctx.check(lst == [s for s in range(N) if flags[s]], "infeasible list disagrees with flags")
        ctx.check(bool(verdict) == (sum(flags) <= k), "verdict is not 'at most floor(eps*N) infeasible'")
        r = inst.is_feasible(np.array(p))
        ctx.check(bool(r[0]) == (sum(flags) <= k) and int(r[1]) == sum(flags), "is_feasible disagrees with check_feasibility")
        ctx.check([bool(v) for v in r[3]] == flags, "is_feasible flags disagree with check_feasibility")
        # an evaluation without storing must not change what is stored for the last checked point
    if cfg["two"]:
        inst.is_feasible(np.array(pts[0]))
        ctx.check([int(v) for v in inst.infeasible_scenarios] == lst and [bool(v) for v in inst.get_feasible_scenarios()] == mask,
                  "stored lists no longer describe the last point checked")
