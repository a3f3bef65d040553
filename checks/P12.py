"""P12: naive and Belotti big-M never cut a solution."""
from .common import *
from vf import models as M

FUNCTIONS = ["BigMFinder.__init__", "BigMFinder._naive_bigM", "BigMFinder.update_big_M", "BigMFinder.run_belotti_et_al_big_M",
             "BigMFinder._single_continuous_belotti_iter", "BigMFinder._single_mip_belotti_iter", "BigMFinder.get_vector_big_M",
             "BigMKnapsackModel.build", "BigMKnapsackModel.initialize_violation_objective", "OptiModel.solve", "OptiModel.get_obj_bnd",
             "song_big_m.solve_continuous_knapsack"]
SOURCES = ["src/BigMFinder.py", "src/optim/BigMKnapsackModel.py", "src/optim/OptiModel.py", "src/song_big_m.py"]
ASSUMPTIONS = ["the MIP solver returns a point of the model with the largest objective, and a bound between that and the objective's largest value over the box",
               "floats are exact reals", "A, b, c and the upper bound are nonnegative (P26)"]
OPTS = dict(nl="nl", timeout_ms=30000)


def bounds(tier):
    return "N<=2 scenarios (also aggregated in a partition), m<=2, n<=%d, arbitrary nonnegative data and upper bounds, two updates in a row" % (
        2 if tier == "quick" else 3)


def configs(tier):
    out = []
    for N, m, n in ((1, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1), (1, 1, 3)) + (((2, 2, 2), (1, 2, 3)) if tier == "thorough" else ()):
        for part in (None, [list(range(N))]):
            out.append(dict(kind="naive", N=N, m=m, n=n, part=part))
            out.append(dict(kind="bin", N=N, m=m, n=n, part=part))
    for N, m, n in ((1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1)) + (((1, 2, 2), (2, 1, 2), (1, 1, 3), (2, 2, 1)) if tier == "thorough" else ()):
        for part in (None, [list(range(N))]):
            out.append(dict(kind="cont", N=N, m=m, n=n, part=part))
    for kind in ("bin", "cont"):
        for p, q in (([[0], [1]], [[1], [0]]), ([[0, 1]], [[1], [0]]), ([[0], [1]], [[1, 0]]), ([[0, 1]], [[1, 0]])):
            out.append(dict(kind=kind, N=2, m=1, n=1, part=p, then=q))
    return out


def harness(ctx, cfg):
    N, m, n, kind = cfg["N"], cfg["m"], cfg["n"], cfg["kind"]
    pts = M.binary_points(n)
    cur = {}

    def oracle(model, cb):
        """Any optimal answer; the bound may exceed the optimum."""
        xs = model._vars
        if len(xs) != n:
            raise E.Unsupported("unexpected model")
        i = cur["n"] = cur.get("n", 0) + 1
        for v in xs:
            if v.vtype != "B":
                raise E.Unsupported("variables are not binary")
        val = lambda p: M.assign(list(zip(xs, p)))
        x = [M.binary(ctx, "y%d_%d" % (i, j)) for j in range(n)]
        ctx.assume(model.holds(val(x)))
        obj = model.objective(val(x))
        sgn = 1 if model._sense < 0 else -1
        top = None
        for p in pts:
            o = model.objective(val(p))
            ctx.assume(zimp(model.holds(val(p)), sgn * o <= sgn * obj))
            top = sgn * o if top is None else E.ite(sgn * o > top, sgn * o, top)
        bnd = ctx.real("bnd%d" % i)
        ctx.assume(zand(sgn * obj <= sgn * bnd, sgn * bnd <= top))
        model.set_solution({v._id: q for v, q in zip(xs, x)}, obj, bnd)
    w = World(ctx, oracle=oracle)
    inst, A, b, c = sym_instance(w, N, m, n, kind != "bin", 0.4)
    groups = [[s] for s in range(N)]
    if cfg["part"]:
        groups = [list(g) for g in cfg["part"]]
        inst = w.get("src.instance.PartitionChanceKnapInstance", "PartitionChanceKnapInstance")(inst)
        inst.load_partition(len(groups), [list(g) for g in groups])
    finder = w.get("src.BigMFinder", "BigMFinder")(inst)

    def bigm(g):
        v = finder.get_vector_big_M(g)
        ctx.check(len(v) == m * len(groups[g]), "one big-M per constraint")
        return list(v)
    naive = {}
    for g, grp in enumerate(groups):
        for j, v in enumerate(bigm(g)):
            s, i = grp[j // m], j % m
            naive[s, i] = v
            for p in pts:
                ctx.check(ctx.le(dot(A[s][i], p) - b[i], v), "naive big-M smaller than a violation in the unit box")
    if kind == "naive":
        finder.update_big_M(len(groups), None, method="naive")
        for g, grp in enumerate(groups):
            for j, v in enumerate(bigm(g)):
                for p in pts:
                    ctx.check(ctx.le(dot(A[grp[j // m]][j % m], p) - b[j % m], v), "updated naive big-M smaller than a violation in the unit box")
        return
    for step in range(2 if n * N * m <= 2 else 1):
        if step == 1 and cfg.get("then"):
            # another partition, and the same or another bound
            groups[:] = [list(g) for g in cfg["then"]]
            inst.load_partition(len(groups), [list(g) for g in groups])
        ub = ctx.real("ub%d" % step, 0)
        finder.update_big_M(len(groups), ub, method="belotti")
        for g, grp in enumerate(groups):
            for j, v in enumerate(bigm(g)):
                s, i = grp[j // m], j % m
                ctx.check(ctx.le(v, naive[s, i]), "Belotti big-M larger than the naive one")
                if kind == "bin":
                    for p in pts:
                        ctx.check(ctx.le(dot(A[s][i], p) - b[i], v), "Belotti big-M smaller than the violation at a point within the upper bound",
                                  when=dot(c, p) <= ub)
                else:
                    vs = list(kvertices(ctx, A[s][i], b[i], c, ub))
                    for ok, val in vs:
                        ctx.check(ctx.le(val, v), "Belotti big-M smaller than the violation at a point within the upper bound", when=ok)
                    ctx.check(zor([zand(ok, ctx.eq(val, v)) for ok, val in vs]), "Belotti big-M is not the largest violation")
