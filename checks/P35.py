"""P35: solving leaves the instance as it was loaded."""
from .e2e import *
from . import e2e
from .P03 import variants

FUNCTIONS = ["MilpSolver.*", "ChanceInstance.*"] + e2e.FUNCTIONS
SOURCES = ["src/solver/MilpSolver.py", "src/song_big_m.py", "src/optim/BigMKnapsackModel.py", "src/optim/AccObjModel.py",
           "src/instance/ChanceInstance.py"] + e2e.SOURCES
ASSUMPTIONS = list(e2e.ASSUMPTIONS)
OPTS = dict(nl="mono")
BUDGET = dict(quick=150)


def bounds(tier):
    return "N<=3 scenarios, n<=2 items, m<=2 rows, each method and option variant, adaptive runs of up to %d partitioned problems, " \
        "stopped and interrupted runs; big-M routines and verdicts by themselves for N,m,n<=2" % (1 if tier == "quick" else 2)


def configs(tier):
    out = []
    for meth in ("none", "naive", "belotti", "song"):
        for N, m, n in ((3, 1, 2), (2, 2, 1)):
            out.append(dict(run="milp", meth=meth, N=N, m=m, n=n, eps="0.5", cont=False, slack=True, unitc=N == 3))
            if meth != "belotti" and N == 2:
                out.append(dict(run="milp", meth=meth, N=N, m=1, n=1, eps="0.5", cont=True, slack=True))
    for q, v in enumerate(variants(tier)):
        v = dict(v, run="ap", solves=1 if tier == "quick" else 2, perm="id")
        out.append(dict(v, N=3, m=1, n=2, eps="0.34", cont=False, unitc=True, stop=bool(q % 2)))
        if v["bigM"] != "belotti":
            out.append(dict(v, N=3, m=1, n=1, eps="0.34", cont=True))
            out.append(dict(v, N=3, m=2, n=1, eps="0.34", cont=False, intr=True))
    for cont in (True, False):
        for N, m, n in ((2, 1, 1), (1, 2, 2)):
            out.append(dict(run="parts", N=N, m=m, n=n, cont=cont, eps="0.5"))
    return [dict(c, method="milp", solves=1) if c["run"] == "milp" else c for c in out]


class Bare:
    """An instance without a solve around it."""

    def __init__(self, ctx, cfg):
        def oracle(model, cb):
            # any value: the answers play no role
            i = cnt[0] = cnt[0] + 1
            v = ctx.real("val_%d" % i)
            model.set_solution({v._id: 0.0 for v in model._vars}, v, v)
        cnt = [0]
        self.ctx, self.cfg, self.cont = ctx, cfg, cfg["cont"]
        self.N, self.m, self.n = cfg["N"], cfg["m"], cfg["n"]
        self.w = World(ctx, oracle=oracle)
        self.inst, self.A, self.b, self.c = sym_instance(self.w, self.N, self.m, self.n, self.cont, float(cfg["eps"]))


def parts(ctx, cfg):
    """The single steps, on the instance and on an aggregated one."""
    sim = Bare(ctx, cfg)
    w, inst, N, n = sim.w, sim.inst, sim.N, sim.n
    eps, cont, np = float(cfg["eps"]), cfg["cont"], sim.w.shims["numpy"]
    P = w.get("src.instance.PartitionChanceKnapInstance", "PartitionChanceKnapInstance")(inst)
    P.load_partition(1, [list(range(N))])
    see = lambda what: unchanged(sim, eps, cont, what)
    see("loading a partition")
    for q in (inst, P):
        finder = w.get("src.BigMFinder", "BigMFinder")(q)
        see("computing the naive big-M")
        finder.update_big_M(q.get_nb_scenarios(), ctx.real("ub", 0), method="belotti")
        see("computing the Belotti big-M")
    if N * sim.m * n <= 2:
        w.get("src.song_big_m", "compute_all_violations")(inst.get_matrices_A(), inst.get_vectors_b())
        see("computing the reference violation bounds")
    x = np.array([ctx.real("x_%d" % j, 0, 1, npf=True) for j in range(n)])
    inst.check_feasibility(x)
    inst.is_feasible(x)
    see("judging a point")


def unchanged(sim, eps, cont, when):
    """Every accessor still answers with the loaded data."""
    ctx, inst, N, m, n = sim.ctx, sim.inst, sim.N, sim.m, sim.n
    bad = lambda what: "%s of the instance changed while %s" % (what, when)
    ctx.check(int(inst.get_nb_scenarios()) == N and int(inst.get_nb_vars()) == n, bad("the sizes"))
    ctx.check(all(int(inst.get_nb_constraints(s)) == m for s in range(N)), bad("the sizes"))
    ctx.check(float(inst.get_epsilon()) == eps, bad("epsilon"))
    ctx.check(inst.get_file_name() == "inst", bad("the name"))
    c, A, b = inst.get_vector_c(), inst.get_matrices_A(), inst.get_vectors_b()
    ctx.check(tuple(c.shape) == (n,) and tuple(A.shape) == (N, m, n) and tuple(b.shape) == (N, m), bad("the shape of the data"))
    ctx.check(zand([zb(ctx.eq(c[j], sim.c[j]).holds) for j in range(n)]), bad("the objective"))
    ctx.check(zand([zb(ctx.eq(A[s, i, j], sim.A[s][i][j]).holds) for s in range(N) for i in range(m) for j in range(n)]), bad("a coefficient"))
    ctx.check(zand([zb(ctx.eq(b[s, i], sim.b[i]).holds) for s in range(N) for i in range(m)]), bad("a right-hand side"))
    for s in range(N):
        R, r = inst.get_matrix_A(s), inst.get_vector_b(s)
        ctx.check(zand([zb(ctx.eq(R[i, j], sim.A[s][i][j]).holds) for i in range(m) for j in range(n)]), bad("a coefficient"))
        ctx.check(zand([zb(ctx.eq(r[i], sim.b[i]).holds) for i in range(m)]), bad("a right-hand side"))
    p = inst.get_proba()
    ctx.check(len(p) == N and all(abs(float(v) - 1.0 / N) < 1e-12 for v in p), bad("a probability"))
    lo, hi = (0.0, 1.0) if cont else (-INF, INF)
    ctx.check([bool(v) for v in inst.get_var_type()] == [cont] * n, bad("a variable type"))
    ctx.check([float(v) for v in inst.get_var_lb()] == [lo] * n and [float(v) for v in inst.get_var_ub()] == [hi] * n, bad("a variable bound"))


def verdict(sim, when):
    """The instance still judges points by the loaded data."""
    ctx, np = sim.ctx, sim.w.shims["numpy"]
    if sim.cont:
        return
    y = [1.0] * sim.n if sim.cfg.get("fam") != "unit" else [1.0] + [0.0] * (sim.n - 1)
    flag = sim.inst.check_feasibility(np.array(y))
    exact = chance(sim, y, 0 if ctx.symbolic else 1e-7)
    ctx.check(zand(zimp(zb(flag), exact), zimp(exact, zb(flag))), "the feasibility verdict changed while %s" % when)


def harness(ctx, cfg):
    if cfg["run"] == "parts":
        return parts(ctx, cfg)
    sim = Sim(ctx, cfg)
    eps = float(cfg["eps"])
    unchanged(sim, eps, cfg["cont"], "loading")
    if cfg["run"] == "milp":
        when = "solving the extended problem"
        S = sim.w.get("src.solver.MilpSolver", "MilpSolver")(sim.inst, time_limit=1000.0, gap=1e-4)
        unchanged(sim, eps, cfg["cont"], "setting up a method")
        if cfg["meth"] == "none":
            S.solve(use_big_m=False)
        else:
            S.solve(use_big_m=True, big_m_method=cfg["meth"])
    else:
        when = "running the adaptive method"
        ap, go = adaptive(sim)
        unchanged(sim, eps, cfg["cont"], "setting up a method")
        if cfg.get("intr"):
            sim.insolve = True
            try:
                go()
            except KeyboardInterrupt:
                pass
            sim.insolve = False
        else:
            go()
    unchanged(sim, eps, cfg["cont"], when)
    verdict(sim, when)
