"""P21: pruning and warm starts never remove a better solution."""
from .common import *
from vf import models as M, grb

FUNCTIONS = ["UpperBounder.partition_bound", "Solver.solve_cclp_model", "CCLPModel.build", "CCLPModel.fix_z_to_zero",
             "CCLPModel._warm_start_binary_var_z", "Warmstarter.get_z_start", "OptiModel.solve", "OptiModel.get_obj_val",
             "OptiModel.get_obj_bnd", "OptiModel.get_var_x_val", "CCLPModel.get_var_z_val", "OptiModel._add_bigM_constraint"]
SOURCES = ["src/UpperBounder.py", "src/solver/Solver.py", "src/optim/CCLPModel.py", "src/optim/OptiModel.py", "src/Warmstarter.py"]
ASSUMPTIONS = ["every subset cost is at least the objective of every admissible point satisfying the subset (P23)", "floats are exact reals",
               "solver options that may end the search early or change its tolerances are recognised by name"]
OPTS = dict(nl="mono")
# options that make the solver discard or never find admissible solutions, with the values that are harmless
LIMITS = {"cutoff", "bestobjstop", "bestbdstop", "solutionlimit", "nodelimit", "iterationlimit", "worklimit", "baritlimit", "solutionnumber",
          "softmemlimit", "memlimit", "improvestarttime", "improvestartgap", "improvestartnodes"}
TOLS = {"intfeastol": 1e-5, "feasibilitytol": 1e-5, "mipgap": 1e-3, "mipgapabs": 1e-6, "optimalitytol": 1e-5}


def bounds(tier):
    return "N<=%d, m<=2, n<=2, every partition, arbitrary data, subset costs, lower bound, three patterns of previous indicator values, with and without " \
        "big-M (binary) and lazy constraints, pruning of any set of subsets" % (3 if tier == "quick" else 4)


def configs(tier):
    out = []
    for N, eps in ((2, "0"), (2, "0.5"), (3, "0.34"), (3, "0")) + (((4, "0.25"), (4, "0.5")) if tier == "thorough" else ()):
        for p in partitions(N):
            if len(p) > kfloor(eps, N):
                for cont, bigm, lazy in ((True, False, False), (False, False, False), (False, True, False), (False, True, True)):
                    if len(p) == 1 and lazy:
                        continue
                    out.append(dict(N=N, m=1 if N > 2 else 2, n=1 if N > 2 else 2, eps=eps, part=p, cont=cont, bigm=bigm, lazy=lazy))
    return out


def harness(ctx, cfg):
    N, m, n, cont = cfg["N"], cfg["m"], cfg["n"], cfg["cont"]
    k = kfloor(cfg["eps"], N)
    part = [list(q) for q in cfg["part"]]
    nb = len(part)
    seen = {}

    def oracle(model, cb):
        if len(model._vars) != n + nb:
            raise E.Unsupported("unexpected model")
        xs = ordered_x(ctx, model, c)
        zv = [v for v in model._vars if all(v is not q for q in xs)]
        pat = seen["pat"]
        seen["model"], seen["xs"], seen["zs"] = model, xs, zv
        vals = {v._id: ctx.real("sx_%d" % j, 0, 1, npf=True) for j, v in enumerate(xs)}
        vals.update({v._id: float((g + pat) % 2) for g, v in enumerate(zv)})
        seen["vals"] = vals
        v = ctx.real("objval")
        if seen["ap"].vUB is not INF:
            ctx.assume(v <= seen["ap"].vUB)
        model.set_solution(vals, v, ctx.real("objbound"))
    w = World(ctx, oracle=oracle, perm=lambda q: list(range(q)))
    inst, A, b, c = sym_instance(w, N, m, n, cont, float(cfg["eps"]))
    np = w.shims["numpy"]
    ap = w.get("src.solver.AdaptivePartitioner", "AdaptivePartitioner")(inst, initial_partition_type="random")
    seen["ap"] = ap
    P = ap.chance_instance_part
    P.load_partition(nb, part)
    ap.partition, ap.nb_subsets = part, nb
    # sanity checks of the caller compare with the previous iteration: the previous bound was infinite and the previous point far away
    ap.vUB, ap.xUB, ap.did_merge = INF, np.array([-3.0] * n), False
    costs = [ctx.real("cost_%d" % g, 0) for g in range(nb)]
    vLB = ctx.real("vLB", 0) if ctx.choice(2, "lb") else -INF
    ap.vLB = vLB
    if ctx.choice(2, "ub"):
        ap.vUB = ctx.real("vUB", 0)
        ctx.assume(zor(ap.vUB >= vLB) if E.issym(vLB) or vLB > -INF else True)
    pat = seen["pat"] = ctx.choice(3, "zprev")
    prev = np.array([[0.0, 1.0, float(g == nb - 1)][pat] for g in range(nb)])
    fin = w.get("src.BigMFinder", "BigMFinder")(P)
    x, z, v_obj, v_bnd = ap.upperbounder.partition_bound(ap, list(costs), vLB, prev, [], fin, 100.0, cfg["bigm"], cfg["lazy"])
    if "model" not in seen:
        ctx.fail("no model was solved")
    model, xs, zv = seen["model"], seen["xs"], seen["zs"]
    # indicators are recognised by the subset whose constraints they switch on: the recorded order is creation order
    y = [ctx.real("y_%d" % j, 0, 1) if cont else M.binary(ctx, "y_%d" % j) for j in range(n)]
    ok = [sat(A[s], b, y) for s in range(N)]
    full = [zand([ok[s] for s in q]) for q in part]
    val = M.assign(list(zip(xs, y)) + [(v, E.mkbool(f) if ctx.symbolic else (1.0 if ctx._b(f) else 0.0)) for v, f in zip(zv, full)])
    obj = dot(c, y)
    pre = [count([znot(q) for q in ok]) <= k] + [zimp(f, cost >= obj) for f, cost in zip(full, costs)]
    if not (isinstance(vLB, float) and vLB == -INF):
        pre.append(obj >= vLB)
    if ap.vUB is not INF:
        pre.append(obj <= ap.vUB)
    ctx.check(zimp(zand(pre), model.holds(val)), "a chance-feasible point at least as good as the lower bound is excluded")
    # which indicators are fixed to zero
    for g, v in enumerate(zv):
        one = M.assign([(v, 1.0)])
        alone = [q.cond(one) for q in model._constrs if q.kind == "lin" and set(q.expr.terms) == {v._id}]
        fixed = znot(zand(alone + [model.bounds_cond(v, 1.0)]))
        ctx.check(zimp(fixed, costs[g] < vLB) if not (isinstance(vLB, float) and vLB == -INF) else znot(fixed),
                  "the indicator of a subset that may improve on the lower bound is fixed to zero")
    for p in model._params:
        q = model._params[p]
        ctx.check(p not in LIMITS, "solver option %s may discard solutions" % p)
        if p in TOLS:
            ctx.check(q <= TOLS[p] + 1e-12, "solver tolerance %s is too large" % p)
    ctx.check(model._sense == grb.GRB.MAXIMIZE, "the model is not maximised")
    # the answer handed back
    ctx.check(len(x) == n and len(z) == nb, "the solution has one entry per variable and subset")
    ctx.check(zand([ctx.eq(x[j], seen["vals"][v._id]) for j, v in enumerate(xs)]), "the reported point is not the solution of the model")
    ctx.check(all(float(z[g]) == seen["vals"][v._id] for g, v in enumerate(zv)), "the reported indicators are not those of the model")
    ctx.check(ctx.eq(v_obj, model._objval), "the reported objective is not the model's")
    ctx.check(ctx.eq(v_bnd, model._objbound), "the reported bound is not the model's")
