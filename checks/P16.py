"""P16: the partitioned instance relaxes the original problem."""
from .common import *
from vf import models as M

FUNCTIONS = ["PartitionChanceKnapInstance.__init__", "PartitionChanceKnapInstance.load_partition", "PartitionChanceKnapInstance.get_matrix_A",
             "PartitionChanceKnapInstance.get_vector_b", "PartitionChanceKnapInstance.get_nb_constraints",
             "PartitionChanceKnapInstance.get_proba", "PartitionChanceKnapInstance.get_epsilon", "PartitionChanceKnapInstance.get_nb_scenarios"]
SOURCES = ["src/instance/PartitionChanceKnapInstance.py", "src/instance/ChanceKnapInstance.py"]
ASSUMPTIONS = ["floats are exact reals", "probabilities compared with a tolerance of 1e-9 (the solver's)"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "N<=%d scenarios, m<=2, n<=2, arbitrary data, every partition loaded after every other partition (sampled pairs beyond N=3)" % (4 if tier == "quick" else 5)


def configs(tier):
    out = []
    for N in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        ps = list(partitions(N))
        for eps in ("0", "0.25", "0.5", "0.67"):
            k = kfloor(eps, N)
            for q, p in enumerate(ps):
                if len(p) > k:
                    prevs = [r for r in ps if len(r) > k]
                    for prev in (prevs if N <= 2 else [prevs[0], prevs[q % len(prevs)], prevs[-1]][:3]):
                        d = dict(N=N, m=2 if N <= 3 else 1, n=1 if N > 2 else 2, eps=eps, part=p, prev=prev)
                        if d not in out:
                            out.append(d)
    # more scenarios than one digit, more items
    mix = [[11, 0, 7], [3], [10, 1, 2, 9], [4, 8, 6, 5]]
    for p, prev in ((mix, [[s] for s in range(12)]), (mix[::-1], mix), ([[s] for s in range(12)][::-1], mix), ([list(range(12))[::-1]], mix)):
        out.append(dict(N=12, m=1, n=1, eps="0.25" if len(p) > 3 else "0", part=p, prev=prev))
    out.append(dict(N=3, m=2, n=7, eps="0.34", part=[[2, 0], [1]], prev=[[0], [1], [2]]))
    return out


def harness(ctx, cfg):
    w = World(ctx)
    N, m, n = cfg["N"], cfg["m"], cfg["n"]
    k = kfloor(cfg["eps"], N)
    inst, A, b, c = sym_instance(w, N, m, n, True, float(cfg["eps"]))
    P = w.get("src.instance.PartitionChanceKnapInstance", "PartitionChanceKnapInstance")(inst)
    P.load_partition(len(cfg["prev"]), [list(g) for g in cfg["prev"]])
    for g in range(len(cfg["prev"])):
        P.get_matrix_A(g), P.get_vector_b(g), P.get_nb_constraints(g)
    P.get_proba(), P.get_epsilon(), P.get_nb_scenarios()
    groups = [list(g) for g in cfg["part"]]
    given = [list(reversed(g)) for g in groups]
    P.load_partition(len(groups), given)
    nb = len(groups)
    ctx.check(int(P.get_nb_scenarios()) == nb, "number of subsets")
    x = [ctx.real("x_%d" % j) for j in range(n)]
    proba = list(P.get_proba())
    ctx.check(len(proba) == nb, "one probability per subset")
    ctx.check(zand([v > 0 if E.issym(v) else bool(v > 0) for v in proba]), "probabilities are positive")
    tot = 0
    for v in proba:
        tot = tot + v
    ctx.check(ctx.eq(tot, 1), "subset probabilities sum to one")
    viol = []
    for g, grp in enumerate(groups):
        Ag, bg = P.get_matrix_A(g), P.get_vector_b(g)
        nc = int(P.get_nb_constraints(g))
        ctx.check(nc == m * len(grp) and tuple(Ag.shape) == (nc, n) and tuple(bg.shape) == (nc,), "shape of the subset's constraints")
        rows = [(list(Ag[i]), bg[i]) for i in range(nc)]
        got = zand([dot(r, x) <= rhs for r, rhs in rows])
        spec = zand([sat(A[s], b, x) for s in grp])
        ctx.check(zimp(got, spec), "subset lacks a constraint of one of its scenarios")
        ctx.check(zimp(spec, got), "subset has a constraint of another scenario")
        viol.append(znot(spec))
    eps_p = P.get_epsilon()
    v = [ctx.bool("v_%d" % g) for g in range(nb)]
    lost = 0
    for g in range(nb):
        lost = lost + E.ite(zb(v[g]), proba[g], 0)
    cnt = count(v)
    ctx.check(zimp(cnt <= k, lost <= eps_p + 1e-9), "fewer than floor(eps*N) subsets may be violated")
    ctx.check(zimp(cnt > k, lost > eps_p + 1e-9), "more than floor(eps*N) subsets may be violated")
    ctx.check(zimp(chance_feasible(A, b, x, k), count(viol) <= k), "a chance-feasible point is cut by the partition")
    # the original instance is untouched, inherited data too
    for o in (inst, ):
        ctx.check(int(o.get_nb_scenarios()) == N, "original number of scenarios changed")
        ctx.check(all(abs(float(p) - 1.0 / N) < 1e-12 for p in o.get_proba()), "original probabilities changed")
        ctx.check(abs(float(o.get_epsilon()) - float(cfg["eps"])) < 1e-12, "original epsilon changed")
        for s in range(N):
            ctx.check(int(o.get_nb_constraints(s)) == m, "original constraint count changed")
            for i in range(m):
                for j in range(n):
                    ctx.check(ctx.eq(o.get_matrix_A(s)[i, j], A[s][i][j]), "original matrix changed")
                ctx.check(ctx.eq(o.get_vector_b(s)[i], b[i]), "original right-hand side changed")
    ctx.check(given == [list(reversed(g)) for g in groups], "the caller's partition was modified")
    ctx.check(int(P.get_nb_vars()) == n, "number of variables")
