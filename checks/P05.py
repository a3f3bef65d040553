"""P05: the violation budget is exactly floor(epsilon*N), in IEEE double arithmetic."""
from fractions import Fraction

from .common import *
from vf.table import Var, Tab

FUNCTIONS = ["ChanceKnapInstance.is_feasible", "ChanceKnapInstance.check_feasibility", "AdaptivePartitioner._setup_initial_partition",
             "Refiner._find_number_of_splits_to_perform", "LowerBounder._get_selected_scenarios", "LowerBounder.deterministic_bound",
             "UpperBounder.ahmed_et_al_bound", "PartitionChanceKnapInstance.load_partition", "OptiModel._add_chance_constraint"]
SOURCES = ["src/instance/ChanceKnapInstance.py", "src/solver/AdaptivePartitioner.py", "src/refiner/Refiner.py", "src/LowerBounder.py",
           "src/UpperBounder.py", "src/instance/PartitionChanceKnapInstance.py", "src/optim/OptiModel.py"]
ASSUMPTIONS = ["epsilon is the double nearest to k/100, k a solver variable in 0..99; every expression the code computes from it is kept "
               "exactly as its table over k (IEEE doubles), and the branch conditions on k are decided by the solver",
               "matrices, points and costs are fixed here: only the budget is symbolic"]
BUDGET = dict(quick=200)

QUICK = tuple(range(1, 21)) + (25, 29, 30, 40, 50, 100)
BIG = (500, 1000, 3000, 5000)
PARTS = ("verdict", "initial", "splits", "lower", "quantile", "subsets", "row")


def bounds(tier):
    return "every epsilon = k/100 with k in 0..99; N in 1..20,25,29,30,40,50,100,500 (chance row: N<=8)" if tier == "quick" else \
        "every epsilon = k/100 with k in 0..99; N in 1..120 and 500,1000,3000,5000 (lower bound scenarios: N<=500; chance row: N<=14)"


def configs(tier):
    out = []
    Ns = QUICK + (500,) if tier == "quick" else tuple(range(1, 121)) + BIG
    for part in PARTS:
        for N in Ns:
            if part == "row" and N > (8 if tier == "quick" else 14):
                continue
            if part in ("verdict", "lower") and N > 500:
                continue
            out.append(dict(part=part, N=N))
    return out


def instance(w, N, eps, bad=()):
    A = [[[2.0 if s in bad else 0.5]] for s in range(N)]
    return sym_instance(w, N, 1, 1, True, eps, A=A, b=[1.0], c=[1.0])[0]


def rows_of_scenarios(model):
    return len([c for c in model._constrs if c.kind == "lin" and c.sense_ == "<"])


def harness(ctx, cfg):
    N, part = cfg["N"], cfg["part"]
    if ctx.symbolic:
        var = Var(ctx, "k", 0, 99)
        eps = var.table(lambda k: k / 100)
        K = var.sym
        num = lambda v: v.value() if isinstance(v, Tab) else v
    else:
        K = ctx.int("k", 0, 99)
        eps = K / 100
        num = lambda v: v

    def is_budget(v):
        """v == floor(k*N/100)"""
        v = int(num(v))
        return zand([100 * v <= K * N, 100 * v > K * N - 100])

    def fits(v):
        return 100 * v <= K * N

    model_seen = []

    def oracle(model, cb):
        model_seen.append(rows_of_scenarios(model))
        vals = {v._id: 0.0 for v in model._vars}
        model.set_solution(vals, 0.0, 0.0)
    w = World(ctx, oracle=oracle, perm=lambda n: list(range(n)))
    if part == "verdict":
        cand = sorted({v for kk in range(100) for v in (kk * N // 100, kk * N // 100 + 1)} | {N}) if N > 30 else list(range(N + 1))
        v = cand[ctx.choice(len(cand), "violated")]
        inst = instance(w, N, eps, range(v))
        x = w.shims["numpy"].array([1.0])
        ctx.check(ctx.iff(zb(bool(inst.is_feasible(x)[0])), fits(v)), "is_feasible does not allow floor(eps*N) violated scenarios")
        ctx.check(ctx.iff(zb(bool(inst.check_feasibility(x))), fits(v)), "check_feasibility does not allow floor(eps*N) violated scenarios")
    elif part == "initial":
        inst = instance(w, N, eps)
        ap = w.get("src.solver.AdaptivePartitioner", "AdaptivePartitioner")(inst, initial_partition_type="random")
        ctx.check(is_budget(num(ap.nb_subsets) - 1), "initial partition has another size than floor(eps*N)+1")
        ctx.check(is_budget(len(ap.partition) - 1), "initial partition has another size than floor(eps*N)+1")
    elif part == "splits":
        inst = instance(w, N, eps)
        r = w.get("src.refiner.RandomRefiner", "RandomRefiner")(inst)
        j = ctx.choice(2, "infeasible subsets")
        if j:
            ctx.assume(fits(j))
            if ctx.symbolic:
                var.alive = [q for q in var.alive if q * N >= 100]
                if not var.alive:
                    raise E.Prune()
        ctx.check(is_budget(num(r._find_number_of_splits_to_perform(j)) - 1 + j), "number of splits is not floor(eps*N)+1 minus those infeasible")
    elif part == "lower":
        inst = instance(w, N, eps)
        lb = w.get("src.LowerBounder", "LowerBounder")(inst, "counter")
        np = w.shims["numpy"]
        lb.save_feasible_scenarios(np.array([float(s) for s in range(N)]))
        lb.vLB = -INF
        lb.deterministic_bound(np.array([0.0]))
        ctx.check(len(model_seen) == 1, "lower bound problem not solved once")
        ctx.check(is_budget(N - model_seen[0]), "lower bound does not enforce exactly N-floor(eps*N) scenarios")
    elif part == "quantile":
        inst = instance(w, N, eps)
        ub = w.get("src.UpperBounder", "UpperBounder")(inst, "random", "random")
        np = w.shims["numpy"]
        costs = np.array([float((7 * s) % N) if N % 7 else float(N - 1 - s) for s in range(N)])
        v = ub.ahmed_et_al_bound(costs, inst.get_proba(), inst.get_epsilon())
        ctx.check(v is not None and is_budget(int(round(float(num(v))))), "quantile bound is not the (floor(eps*N)+1)-th smallest cost")
    elif part == "subsets":
        inst = instance(w, N, eps)
        P = w.get("src.instance.PartitionChanceKnapInstance", "PartitionChanceKnapInstance")(inst)
        f = int(num((eps * 100).__round__() * N // 100)) if ctx.symbolic else K * N // 100
        sizes = sorted({f + 1, min(N, f + 2), N})
        nb = sizes[ctx.choice(len(sizes), "size")] if len(sizes) > 1 else sizes[0]
        P.load_partition(nb, [list(range(g, N, nb)) for g in range(nb)])
        proba, e = P.get_proba(), P.get_epsilon()
        ctx.check(len(proba) == nb, "one probability per subset")
        lost = 0.0
        for j in range(0, min(nb, f + 1) + 1):
            ok = bool(num(e + 1e-9 >= lost)) if ctx.symbolic else bool(lost <= e + 1e-9)
            ctx.check(ctx.iff(zb(ok), fits(j)), "partitioned problem allows another number of violated subsets than floor(eps*N)")
            if j < nb:
                lost += float(proba[j])
    else:
        if ctx.symbolic:
            eps = float(eps)
        inst = instance(w, N, eps)
        m = w.get("src.optim.CCLPModel", "CCLPModel")(inst, None)
        m.build(use_big_M=False, verbose=False)
        zs = [m.var_z[s] for s in range(N)]
        ids = {v._id for v in zs}
        rows = [c for c in m.grb_model._constrs if c.kind == "lin" and set(c.expr.terms) <= ids]
        z = [ctx.bool("z_%d" % s) for s in range(N)]
        val = {v._id: (E.ite(b.e, 1.0, 0.0) if ctx.symbolic else float(b)) for v, b in zip(zs, z)}
        down = count([znot(b) for b in z])
        tol = Fraction(1, 10**6)      # the MIP solver's feasibility tolerance
        ok = True
        for c in rows:
            lhs = 0
            for vid, (_, cf) in c.expr.terms.items():
                lhs = lhs + val[vid] * cf
            lhs = lhs + c.expr.const
            ok = zand(ok, lhs >= -tol if c.sense_ == ">" else lhs <= tol)
        ctx.check(ctx.iff(ok, down * 100 <= K * N), "chance row allows another number of violated scenarios than floor(eps*N)")
