"""P10: the indicator model states the chance-constrained problem."""
from .common import *
from vf import models as M, grb

FUNCTIONS = ["CCLPModel.build", "CCLPModel._add_indicator_constraint", "OptiModel._initialize_var_x", "OptiModel._initialize_obj",
             "OptiModel._initialize_binary_var_z", "OptiModel._add_chance_constraint", "PartitionChanceKnapInstance.*"]
SOURCES = ["src/optim/CCLPModel.py", "src/optim/OptiModel.py", "src/instance/PartitionChanceKnapInstance.py"]
ASSUMPTIONS = ["gurobipy is replaced by a recorder that keeps variables, constraints and objective as terms",
               "data*point products abstracted by one variable per monomial (sound)"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "N<=%d scenarios, m<=2, n<=2, arbitrary data and points, several epsilon, full instance and every partition" % (3 if tier == "quick" else 4)


def cases(tier):
    out = []
    Ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    for N in Ns:
        for eps in ("0", "0.34", "0.5", "0.75"):
            for cont in (True, False):
                for m, n in ((1, 2), (2, 1)):
                    out.append(dict(N=N, m=m, n=n, eps=eps, cont=cont, part=None))
                if cont or N == 3:
                    for p in partitions(N):
                        if N >= 2 and len(p) > kfloor(eps, N):
                            out.append(dict(N=N, m=2 if N < 4 else 1, n=1, eps=eps, cont=cont, part=p))
    return out


def configs(tier):
    # more scenarios than one digit, more items
    mix = [[11, 0, 7], [3], [10, 1, 2, 9], [4, 8, 6, 5]]
    return cases(tier) + [dict(N=12, m=1, n=1, eps="0.25", cont=False, part=None), dict(N=12, m=1, n=1, eps="0.25", cont=True, part=mix),
                          dict(N=2, m=1, n=7, eps="0.5", cont=True, part=None), dict(N=2, m=5, n=1, eps="0.5", cont=False, part=None)]


def make(ctx, cfg):
    w = World(ctx)
    N, m, n = cfg["N"], cfg["m"], cfg["n"]
    inst, A, b, c = sym_instance(w, N, m, n, cfg["cont"], float(cfg["eps"]))
    target = inst
    groups = [[s] for s in range(N)]
    if cfg["part"] is not None:
        groups = [list(p) for p in cfg["part"]]
        target = w.get("src.instance.PartitionChanceKnapInstance", "PartitionChanceKnapInstance")(inst)
        target.load_partition(len(groups), [list(g) for g in groups])
    return w, inst, target, groups, A, b, c


def model_of(cclp):
    return cclp.grb_model


def val_of(cclp, x, zs):
    pairs = [(cclp.var_x[j], x[j]) for j in range(len(x))] + [(cclp.var_z[s], zs[s]) for s in range(len(zs))]
    return M.assign(pairs)


def symz(ctx, n):
    return [ctx.bool("z_%d" % s) for s in range(n)]


def free_point(ctx, n):
    return [ctx.real("x_%d" % j) for j in range(n)]


def spec_box(x, cont):
    if cont:
        return zand([zand(v >= 0, v <= 1) for v in x])
    return zand([zor(v == 0, v == 1) for v in x])


def harness(ctx, cfg):
    w, inst, target, groups, A, b, c = make(ctx, cfg)
    n, N = cfg["n"], cfg["N"]
    k = kfloor(cfg["eps"], N)
    cclp = w.get("src.optim.CCLPModel", "CCLPModel")(target, None)
    cclp.build(use_big_M=False, verbose=False)
    x = free_point(ctx, n)
    zs = symz(ctx, len(groups))
    val = val_of(cclp, x, zs)
    mod = model_of(cclp)
    got = mod.holds(val)
    chance = count([znot(v) for v in zs]) <= k
    spec = zand(spec_box(x, cfg["cont"]), chance,
                [zimp(zs[g], zand([sat(A[s], b, x) for s in grp])) for g, grp in enumerate(groups)])
    ctx.check(len(mod._vars) == n + len(groups), "one x variable per item and one indicator per scenario or subset")
    ctx.check(zimp(got, spec), "model admits a point the problem forbids")
    ctx.check(zimp(spec, got), "model forbids a point the problem admits")
    ctx.check(mod._sense == grb.GRB.MAXIMIZE, "objective is maximised")
    ctx.check(ctx.eq(mod.objective(val), dot(c, x)), "objective is the instance's")
