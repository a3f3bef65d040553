"""P07: refinement splits the partition and cuts off the last solution."""
import copy

from .common import *

FUNCTIONS = ["Refiner.refine", "Refiner._initialize_refinement", "Refiner._find_infeasible_subsets", "Refiner._count_infeasible_scenarios",
             "Refiner._find_number_of_splits_to_perform", "Refiner._split_scenarios_subset", "Refiner._traverse_subsets_and_split",
             "Refiner._split_top_mu_subset", "RandomRefiner._get_sorted_scenarios", "RandomRefiner._get_sorted_subsets",
             "CostRefiner._get_sorted_subsets", "CostRefiner._evaluate_accurate_splits", "CostRefiner._evaluate_single_accurate_split",
             "CostRefiner._perform_accurate_split", "CostRefiner.accurate_obj_split", "AccObjModel.build", "AccObjModel.get_subsets",
             "ChanceKnapInstance.check_feasibility"]
SOURCES = ["src/refiner/Refiner.py", "src/refiner/RandomRefiner.py", "src/refiner/CostRefiner.py", "src/optim/AccObjModel.py"]
ASSUMPTIONS = ["random permutations are arbitrary", "the split model's answer is any 0/1 assignment satisfying its assignment constraints, "
               "with any nonnegative value", "the number of subsets containing a violated scenario is at most floor(eps*N) before the "
               "refinement, as it is for a solution of the partitioned problem"]
OPTS = dict(nl="mono")
BUDGET = dict(quick=150)


def bounds(tier):
    return "every partition of N<=%d scenarios, every set of violated scenarios, every epsilon budget, all orders and split answers; three partitions of 7 or 8 " \
        "scenarios with subsets of 3 to 5, orders up to rotation, that need up to 3 splits; for the " \
        "cost rule, arbitrary subset costs, split values and upper bound" % (4 if tier == "quick" else 5)


def configs(tier):
    out = []
    for N in (2, 3, 4) + ((5,) if tier == "thorough" else ()):
        for k in range(1, N):      # with a budget of zero the first solution is feasible: there is no refinement
            eps = {2: ("0", "0.5"), 3: ("0", "0.34", "0.67"), 4: ("0", "0.25", "0.5", "0.75"), 5: ("0", "0.2", "0.4", "0.6", "0.8")}[N][k]
            for p in partitions(N):
                if k + 1 <= len(p) < N:
                    out.append(dict(rule="random", N=N, eps=eps, part=p))
                    out.append(dict(rule="cost", N=N, eps=eps, part=p))
    # several splits of larger subsets; orders: rotations
    for N, eps, p, good in ((7, "0.29", [[0, 1, 2, 3, 4], [5], [6]], [5, 6]), (8, "0.375", [[0, 1, 2], [3, 4, 5], [6], [7]], [6, 7]),
                            (7, "0.43", [[5], [0, 1, 2], [3, 4], [6]], [5])):
        for rule in ("random", "cost"):
            if rule == "random" or tier == "thorough":
                out.append(dict(rule=rule, N=N, eps=eps, part=p, good=good, perm="rot"))
    return out


def rotation(ctx):
    return lambda q: (lambda r: [(i + r) % q for i in range(q)])(ctx.choice(q, "rot") if q > 1 else 0)


class SplitOracle:
    """Answer of the split model: any assignment of its 0/1 variables satisfying the constraints on them alone."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.log = []

    def __call__(self, model, cb):
        ctx = self.ctx
        k = self.n
        self.n += 1
        vals = {}
        bins = {}
        for i, v in enumerate(model._vars):
            if v.vtype == "B":
                bins[v._id] = ctx.bool("pi_%d_%d" % (k, i))
        conds = [c.cond(lambda v: bins[v._id]) for c in model._constrs
                 if c.kind == "lin" and all(t in bins for t in c.expr.terms)]
        ctx.assume(zand(conds))
        ctx.feasible()
        for v in model._vars:
            if v._id in bins:
                # gurobi returns numbers
                q = bool(bins[v._id])
                vals[v._id] = 1.0 if q else 0.0
            else:
                vals[v._id] = 0.0
        val = ctx.real("alpha_%d" % k, 0)
        model.set_solution(vals, val, val)
        self.log.append((model, val))


def harness(ctx, cfg):
    N = cfg["N"]
    k = kfloor(cfg["eps"], N)
    w = World(ctx, oracle=SplitOracle(ctx), **(dict(perm=rotation(ctx)) if cfg.get("perm") else {}))
    inst, A, b, c = sym_instance(w, N, 1, 1, True, float(cfg["eps"]))
    bad = [A[s][0][0] > b[0] + 1e-3 for s in range(N)]
    for s in range(N):
        ctx.assume(zor(bad[s], A[s][0][0] <= b[0]))
    for s in cfg.get("good", []):
        ctx.assume(znot(bad[s]))
    nbad = count(bad)
    ctx.assume(nbad > k)
    old = [list(q) for q in cfg["part"]]
    infs = count([zor([bad[s] for s in q]) for q in old])
    ctx.assume(infs <= k)
    ctx.feasible()
    x = w.shims["numpy"].array([1.0])
    inst.check_feasibility(x)
    if cfg["rule"] == "random":
        r = w.get("src.refiner.RandomRefiner", "RandomRefiner")(inst)
    else:
        r = w.get("src.refiner.CostRefiner", "CostRefiner")(inst, use_acc_obj=True)
    r.vUB = ctx.real("vUB", 0)
    r.subset_costs = [ctx.real("sc_%d" % q, 0) if len(old) <= 2 else float(q % 2) for q in range(len(old))]
    given = [list(q) for q in old]
    inner = list(given)
    nb, new = r.refine(given, x)
    ctx.check(given == old and all(p is q for p, q in zip(given, inner)), "the caller's partition was modified")
    is_partition(ctx, new, N, "refined partition", int(nb))
    ctx.check(all(any(set(q) <= set(o) for o in old) for q in new), "a new subset mixes scenarios of two old subsets")
    hit = count([zor([bad[int(s)] for s in q]) for q in new])
    ctx.check(hit == k + 1, "not exactly floor(eps*N)+1 subsets contain a violated scenario")
    newpos = [int(q) for q in r.new_subsets]
    ctx.check(all(0 <= q < len(new) for q in newpos), "reported new subset out of range")
    for q in range(len(new)):
        if q not in newpos:
            ctx.check(q < len(old) and sorted(new[q]) == sorted(old[q]), "a subset not reported as new differs from the old one")
    feas = [int(q) for q in r.feasible_subsets]
    ctx.check(len(set(feas)) == len(feas), "a feasible subset is reported twice")
    for q in range(len(new)):
        ctx.check(ctx.iff(q in feas, znot(zor([bad[int(s)] for s in new[q]]))), "reported feasible subsets are wrong")
