"""P20: quantile and first-iteration bounds are valid and tight."""
from .common import *

FUNCTIONS = ["UpperBounder.ahmed_et_al_bound", "UpperBounder.first_iteration_bound", "AdaptivePartitioner.__init__",
             "AdaptivePartitioner._setup_initial_partition", "AdaptivePartitioner._upper_bound"]
SOURCES = ["src/UpperBounder.py", "src/solver/AdaptivePartitioner.py"]
ASSUMPTIONS = ["floats are exact reals (the rounding of epsilon*N is decided by P05)"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "N<=%d scenarios, arbitrary costs (ties included), all epsilon budgets, every partition into floor(eps*N)+1 subsets of N<=4 scenarios" % (
        5 if tier == "quick" else 6)


def configs(tier):
    out = []
    for N in range(1, 6 if tier == "quick" else 7):
        for k in range(N):
            for d in (0, 1):
                pct = -(-100 * k // N) + d * ((100 * (k + 1) - 1) // N - -(-100 * k // N))
                e = "%.2f" % (pct / 100)
                if kfloor(e, N) == k and not (tier == "quick" and N == 5 and d):
                    out.append(dict(kind="quantile", N=N, eps=e))
                    if N <= 4:
                        out.append(dict(kind="solver", N=N, eps=e))
    for N in (1, 2, 3, 4):
        for p in partitions(N):
            out.append(dict(kind="first", N=N, part=p))
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def check_bound(ctx, bound, costs, k):
    N = len(costs)
    if bound is None:
        ctx.fail("no bound returned")
    lt = count([q < bound for q in costs])
    le = count([q <= bound for q in costs])
    ctx.check(zand(lt <= k, le >= k + 1), "the bound is not the (floor(eps*N)+1)-th smallest cost")
    # any value attained by a point that satisfies at least N-k scenarios
    v = ctx.real("value")
    ctx.check(zimp(count([q >= v for q in costs]) >= N - k, v <= bound), "a point satisfying all but floor(eps*N) scenarios exceeds the bound")


def harness(ctx, cfg):
    N = cfg["N"]
    if cfg["kind"] == "quantile":
        w = World(ctx)
        k = kfloor(cfg["eps"], N)
        inst, A, b, c = sym_instance(w, N, 1, 1, True, float(cfg["eps"]))
        costs = [ctx.real("cost_%d" % s, npf=True) for s in range(N)]
        ub = w.get("src.UpperBounder", "UpperBounder")(None, None, None)
        arg = list(costs) if ctx.choice(2, "form") else w.shims["numpy"].array(costs)
        bound = ub.ahmed_et_al_bound(arg, inst.get_proba(), inst.get_epsilon())
        check_bound(ctx, bound, costs, k)
    elif cfg["kind"] == "solver":
        k = kfloor(cfg["eps"], N)
        orc = cost_oracle(ctx, N, 1)
        w = World(ctx, oracle=orc)
        inst, A, b, c = sym_instance(w, N, 1, 1, True, float(cfg["eps"]))
        orc.bind(A, b, c)
        ap = w.get("src.solver.AdaptivePartitioner", "AdaptivePartitioner")(inst, initial_partition_type="cost")
        check_bound(ctx, ap.vUB, [orc.cost[(s,)] for s in range(N)], k)
    else:
        w = World(ctx)
        part = cfg["part"]
        k = len(part) - 1
        costs = [ctx.real("cost_%d" % g, npf=True) for g in range(len(part))]
        sols = [w.shims["numpy"].array([ctx.real("sol_%d_%d" % (g, j), npf=True) for j in range(2)]) for g in range(len(part))]
        raw = [[v for v in s] for s in sols]
        ub = w.get("src.UpperBounder", "UpperBounder")(None, None, None)
        x, z, v_obj, v_bnd = ub.first_iteration_bound(list(costs), list(sols))
        ctx.check(len(z) == len(part), "one indicator per subset")
        zs = [int(v) for v in z]
        ctx.check(sum(1 for v in zs if v == 1) == 1 and all(v in (0, 1) for v in zs), "exactly one subset is selected")
        g = zs.index(1)
        ctx.check(zand([costs[h] <= costs[g] for h in range(len(part))]), "the selected subset does not have the largest cost")
        for v in (v_obj, v_bnd):
            ctx.check(ctx.eq(v, costs[g]), "the reported value is not the largest subset cost")
        ctx.check(zand([ctx.eq(x[j], raw[g][j]) for j in range(2)]), "the reported point is not the solution of that subset")
        # a point of value v satisfying the scenarios marked ok: every subset fully satisfied costs at least v
        v = ctx.real("value")
        ok = [ctx.bool("ok_%d" % s) for s in range(N)]
        pre = zand(count([znot(q) for q in ok]) <= k,
                   [zimp(zand([ok[s] for s in q]), costs[h] >= v) for h, q in enumerate(part)])
        ctx.check(zimp(pre, v <= v_bnd), "a point satisfying all but floor(eps*N) scenarios exceeds the first bound")
