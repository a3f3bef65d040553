"""P15: Song big-M quantiles never cut a solution."""
from .common import *

FUNCTIONS = ["BigMFinder.__init__", "BigMFinder.update_big_M", "BigMFinder.run_song_et_al_big_m", "BigMFinder._quantile_big_m",
             "BigMFinder.get_vector_big_M", "PartitionChanceKnapInstance.load_partition"]
SOURCES = ["src/BigMFinder.py", "src/instance/PartitionChanceKnapInstance.py", "src/instance/ChanceKnapInstance.py"]
ASSUMPTIONS = ["the violation table is arbitrary within what P13 guarantees: entry (s,t,i) bounds the violation of (s,i) over all points satisfying t",
               "a point enters only through its constraint violations, arbitrary between the values possible in the unit box",
               "floats are exact reals"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "N<=%d scenarios, m<=2, every partition with more than floor(eps*N) subsets (N<=3; sampled beyond), two updates in a row, arbitrary tables" % (
        4 if tier == "quick" else 5)


def configs(tier):
    out = []
    top = 4 if tier == "quick" else 5
    for N in range(1, top + 1):
        for k in range(N):
            e = "%.2f" % (-(-100 * k // N) / 100)
            if kfloor(e, N) != k:
                continue
            for m in (1, 2):
                out.append(dict(N=N, m=m, eps=e, seq=[None, None]))
            ps = [p for p in partitions(N) if len(p) > k]
            for q, p in enumerate(ps):
                if N >= 4 and tier == "quick" and len(p) not in (k + 1, k + 2):
                    continue
                prevs = [p, ps[-1 - q]] if N <= 3 else [ps[-1 - q]]
                for prev in prevs:
                    # the second partition reversed within its subsets: order must not matter
                    out.append(dict(N=N, m=2 if N <= 3 else 1, eps=e, seq=[prev, [list(reversed(g)) for g in p]]))
    return out


def harness(ctx, cfg):
    N, m, n = cfg["N"], cfg["m"], 1
    k = kfloor(cfg["eps"], N)
    T = [[[None] * m for _ in range(N)] for _ in range(N)]
    world = []

    def table(A_, b_):
        return world[0].shims["numpy"].array([[[T[s][t][i] for i in range(m)] for t in range(N)] for s in range(N)])
    w = World(ctx, violations=table)
    world.append(w)
    inst, A, b, c = sym_instance(w, N, m, n, True, float(cfg["eps"]))
    v = [[ctx.real("v_%d_%d" % (s, i)) for i in range(m)] for s in range(N)]
    for s in range(N):
        for i in range(m):
            ctx.assume(zand(v[s][i] <= A[s][i][0] - b[i], v[s][i] >= -b[i]))
            for t in range(N):
                T[s][t][i] = ctx.real("T_%d_%d_%d" % (s, t, i), npf=True)
                ctx.assume(T[s][t][i] <= (A[s][i][0] - b[i] if s != t else 0))
    ok = [zand([v[t][i] <= 0 for i in range(m)]) for t in range(N)]
    for s in range(N):
        for t in range(N):
            for i in range(m):
                ctx.assume(zimp(ok[t], v[s][i] <= T[s][t][i]))
    F = w.get("src.BigMFinder", "BigMFinder")
    part_inst = None
    finder = None
    for step, part in enumerate(cfg["seq"]):
        if part is None:
            groups = [[s] for s in range(N)]
            finder = finder or F(inst)
            finder.update_big_M(N, None, method="song", chance_instance=inst)
        else:
            groups = [list(g) for g in part]
            if part_inst is None:
                part_inst = w.get("src.instance.PartitionChanceKnapInstance", "PartitionChanceKnapInstance")(inst)
            part_inst.load_partition(len(groups), [list(g) for g in part])
            finder = finder or F(part_inst)
            finder.update_big_M(len(groups), None, method="song", chance_instance=inst, partition=[list(g) for g in part])
        few = count([znot(zand([ok[s] for s in g])) for g in groups]) <= k
        for g, grp in enumerate(groups):
            M = finder.get_vector_big_M(g)
            ctx.check(len(M) == m * len(grp), "one big-M per constraint")
            for j in range(m * len(grp)):
                s, i = grp[j // m], j % m
                ctx.check(ctx.le(v[s][i], M[j]), "a big-M is smaller than the violation at a point satisfying all but floor(eps*N) %s"
                          % ("scenarios" if part is None else "subsets"), when=few, info="update %d" % (step + 1))
