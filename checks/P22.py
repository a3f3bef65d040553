"""P22: the incumbent heuristic accepts only feasible improvements, best first."""
from .common import *
from vf import models as M

FUNCTIONS = ["LowerBounder.incumbent_bound", "LowerBounder._find_best_incumbent", "ChanceKnapInstance.is_feasible",
             "AdaptivePartitioner._improve_vlb_with_candidate_sols"]
SOURCES = ["src/LowerBounder.py", "src/solver/AdaptivePartitioner.py", "src/instance/ChanceKnapInstance.py"]
ASSUMPTIONS = ["floats are exact reals", "improvements smaller than 1e-6 may be ignored; a violation strictly between 0.5e-6 and 2e-6 may count either way",
               "with continuous variables products are abstracted by a shared variable per monomial"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "up to %d candidates, N<=%d, m=1, n<=2, arbitrary data, candidates and bounds (absent or not)" % ((3, 3) if tier == "quick" else (4, 3))


def configs(tier):
    out = []
    for K, N, n, eps, cont in ((1, 1, 1, "0.5", True), (1, 3, 1, "0.34", True), (2, 2, 1, "0.5", True), (2, 2, 2, "0", False),
                               (3, 1, 1, "0", True), (2, 1, 2, "0.3", True), (3, 2, 1, "0.5", False)) + (
                                   ((3, 2, 1, "0.5", True), (4, 1, 1, "0", True), (3, 2, 2, "0.5", False)) if tier == "thorough" else ()):
        for lb in ("num", "-inf"):
            for ub in ("num", "inf"):
                out.append(dict(K=K, N=N, n=n, eps=eps, cont=cont, lb=lb, ub=ub, call="incumbent"))
        out.append(dict(K=K, N=N, n=n, eps=eps, cont=cont, lb="num", ub="num", call="solver"))
    out.append(dict(K=0, N=2, n=1, eps="0.5", cont=True, lb="num", ub="num", call="incumbent"))
    out.append(dict(K=0, N=2, n=1, eps="0.5", cont=True, lb="-inf", ub="inf", call="solver"))
    return out


def harness(ctx, cfg):
    K, N, n = cfg["K"], cfg["N"], cfg["n"]
    k = kfloor(cfg["eps"], N)
    w = World(ctx, perm=lambda q: list(range(q)))
    inst, A, b, c = sym_instance(w, N, 1, n, cfg["cont"], float(cfg["eps"]))
    np = w.shims["numpy"]
    pts = [M.point(ctx, "x_%d" % i, n, cfg["cont"]) for i in range(K)]
    lb = ctx.real("lb", 0) if cfg["lb"] == "num" else -INF
    ub = ctx.real("ub", 0) if cfg["ub"] == "num" else INF
    if cfg["lb"] == cfg["ub"] == "num":
        ctx.assume(lb <= ub)
    cands = [np.array(p) for p in pts]
    objs = [dot(c, p) for p in pts]
    for p in pts:
        for s in range(N):
            d = dot(A[s][0], p) - b[0]
            ctx.assume(zor(d <= 5e-7, d >= 2e-6))
    if cfg["lb"] == "num":
        for o in objs:
            ctx.assume(zor(o <= lb, o >= lb + 1e-6))
    feas = [chance_feasible(A, b, p, k, tol=1e-6) for p in pts]
    good = [zand([f] + ([o >= lb + 5e-7] if cfg["lb"] == "num" else []) + ([o <= ub] if cfg["ub"] == "num" else []))
            for f, o in zip(feas, objs)]
    if cfg["call"] == "incumbent":
        lower = w.get("src.LowerBounder", "LowerBounder")(inst)
        found, x, obj = lower.incumbent_bound(cands, ub, lb, verbose=bool(K % 2))
    else:
        ap = w.get("src.solver.AdaptivePartitioner", "AdaptivePartitioner")(inst, initial_partition_type="random")
        ap.vLB, ap.vUB = lb, ub
        old = ap.xLB = np.array([0.25] * n)
        ap._improve_vlb_with_candidate_sols(cands, verbose=False)
        found = ap.xLB is not old
        x, obj = ap.xLB, ap.vLB
        if not found:
            ctx.check(ctx.eq(ap.vLB, lb) if cfg["lb"] == "num" else ap.vLB == -INF, "the lower bound moved without a new point")
        ctx.check(ctx.eq(ap.vUB, ub) if cfg["ub"] == "num" else ap.vUB == INF, "the upper bound moved")
    found = bool(found)
    ctx.check(ctx.iff(found, zor(good)) if K else znot(found), "a candidate is returned although none is acceptable, or none although one is")
    if found:
        ctx.check(len(x) == n, "the returned point has the wrong length")
        isit = [zand([ctx.eq(x[j], p[j]) for j in range(n)]) for p in pts]
        ctx.check(zor([zand(i, g) for i, g in zip(isit, good)]), "the returned point is not an acceptable candidate")
        ctx.check(ctx.eq(obj, dot(c, list(x))), "the returned value is not the objective of the returned point")
        for g, o in zip(good, objs):
            ctx.check(ctx.le(o, obj), "another acceptable candidate has a larger objective", when=g)
    ctx.check(all(len(q) == n for q in cands) and len(cands) == K, "the list of candidates was modified")
