"""P11: the big-M model is equivalent to the indicator model."""
from .common import *
from . import P10
from vf import models as M, grb

FUNCTIONS = ["CCLPModel.build(use_big_M)", "OptiModel._add_all_bigM_constraints", "OptiModel._add_bigM_constraint",
             "OptiModel._add_single_bigM_constraint", "OptiModel._add_single_fixed_bigM_constraint"]
SOURCES = P10.SOURCES
ASSUMPTIONS = P10.ASSUMPTIONS
OPTS = dict(nl="mono")


def bounds(tier):
    return P10.bounds(tier) + ", arbitrary real big-M values of any sign that bound the violation at every point within the budget (instantiated at the point and, for continuous variables, at the last point of its ray that satisfies the selected groups)"


def configs(tier):
    out = []
    for c in P10.cases(tier):
        if c["N"] == 1 and c["eps"] != "0":
            continue
        if tier == "quick" and c["N"] == 3 and (c["part"] is not None or c["m"] == 2) and c["eps"] not in ("0.34",):
            continue
        if tier == "quick" and c["N"] == 3 and c["m"] == 2:
            c = dict(c, m=1)
        for lazy in ((False, True) if c["N"] <= 2 or c["part"] is None else (True,)):
            out.append(dict(c, lazy=lazy))
    out.append(dict(N=6, m=1, n=1, eps="0.34", cont=False, part=None, lazy=False))
    out.append(dict(N=12, m=1, n=1, eps="0.1", cont=False, part=[[11, 0, 7, 3, 10, 1], [2, 9, 4, 8, 6, 5]], lazy=False))
    out.append(dict(N=2, m=1, n=5, eps="0.5", cont=True, part=None, lazy=True))
    out.append(dict(N=2, m=5, n=1, eps="0.5", cont=False, part=None, lazy=False))
    return out


class Finder:
    def __init__(self, Ms):
        self.bigM = Ms

    def get_vector_big_M(self, s):
        return self.bigM[s]


def harness(ctx, cfg):
    w, inst, target, groups, A, b, c = P10.make(ctx, cfg)
    n, N, m = cfg["n"], cfg["N"], cfg["m"]
    k = kfloor(cfg["eps"], N)
    np = w.shims["numpy"]
    x = P10.free_point(ctx, n)
    zs = P10.symz(ctx, len(groups))
    Ms = []
    for g, grp in enumerate(groups):
        row = []
        for s in grp:
            for i in range(m):
                row.append(ctx.real("M_%d_%d" % (g, len(row)), npf=True))
        Ms.append(np.array(row))
    if N > 3:
        # sizes: the sign of most parameters is fixed
        for M_ in [v for q, v in enumerate(v for row in Ms for v in row) if q % 5 not in (0, 4)]:
            ctx.assume(M_ >= 0)
    ctx.assume(P10.spec_box(x, cfg["cont"]))
    # the parameters bound the violation at every point within the budget: at x if it is one ...
    V = [[[dot(A[s][i], x) for i in range(m)] for s in grp] for grp in groups]
    ok = lambda W, g: zand([W[g][q][i] <= b[i] for q in range(len(groups[g])) for i in range(m)])
    few = count([znot(ok(V, g)) for g in range(len(groups))]) <= k
    for g, grp in enumerate(groups):
        for q in range(len(grp)):
            for i in range(m):
                ctx.assume(zimp(few, Ms[g][q * m + i] >= V[g][q][i] - b[i]))
    if cfg["cont"] and ctx.symbolic:
        # ... and at the last point t*x, 0<=t<=1, of the ray to x that satisfies all selected groups: t=1, or one of their
        # constraints is tight there and violated at x
        W = [[[ctx.real("W_%d_%d_%d" % (g, q, i), 0) for i in range(m)] for q in range(len(grp))] for g, grp in enumerate(groups)]
        cells = [(g, q, i) for g, grp in enumerate(groups) for q in range(len(grp)) for i in range(m)]
        one = zand([W[g][q][i] == V[g][q][i] for g, q, i in cells])
        ctx.assume(zand([W[g][q][i] <= V[g][q][i] for g, q, i in cells], [zimp(zs[g], ok(W, g)) for g in range(len(groups))],
                        zor([one] + [zand(zs[g], W[g][q][i] == b[i], V[g][q][i] > b[i]) for g, q, i in cells])))
        sel = count([znot(v) for v in zs]) <= k
        for g, q, i in cells:
            ctx.assume(zimp(sel, Ms[g][q * m + i] >= W[g][q][i] - b[i]))
    if cfg["cont"] and not ctx.symbolic and sum(1 for v in zs if not v) <= k:
        t = min([1.0] + [b[i] / V[g][q][i] for g in range(len(groups)) if zs[g] for q in range(len(groups[g])) for i in range(m) if V[g][q][i] > b[i]])
        for g in range(len(groups)):
            for q in range(len(groups[g])):
                for i in range(m):
                    ctx.assume(Ms[g][q * m + i] >= t * V[g][q][i] - b[i] - 1e-7)
    cclp = w.get("src.optim.CCLPModel", "CCLPModel")(target, Finder(Ms))
    cclp.build(use_big_M=True, use_lazy=cfg["lazy"], verbose=False)
    val = P10.val_of(cclp, x, zs)
    mod = cclp.grb_model
    got = mod.holds(val)
    spec = zand(P10.spec_box(x, cfg["cont"]), count([znot(v) for v in zs]) <= k,
                [zimp(zs[g], zand([sat(A[s], b, x) for s in grp])) for g, grp in enumerate(groups)])
    ctx.check(len(mod._vars) == n + len(groups), "one x variable per item and one indicator per scenario or subset")
    ctx.check(zimp(got, spec), "big-M model admits a point the indicator model forbids")
    ctx.check(zimp(spec, got), "big-M model forbids a point the indicator model admits")
    ctx.check(mod._sense == grb.GRB.MAXIMIZE, "objective is maximised")
    ctx.check(ctx.eq(mod.objective(val), dot(c, x)), "objective is the instance's")
