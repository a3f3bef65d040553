"""P06: the initial partition is a minimal valid partition."""
from .common import *
from .common import cost_oracle

FUNCTIONS = ["Initializer.create_first_partition", "Initializer._random_partition", "Initializer._single_scenario_cost_partition",
             "Initializer._check_partitions", "AdaptivePartitioner.__init__", "AdaptivePartitioner._setup_initial_partition",
             "PartitionChanceKnapInstance.load_partition", "Evaluator.get_all_single_scenario_costs"]
SOURCES = ["src/Initializer.py", "src/solver/AdaptivePartitioner.py", "src/Evaluator.py", "src/instance/PartitionChanceKnapInstance.py"]
ASSUMPTIONS = ["random.sample may return any permutation", "the MIP solver is replaced by an arbitrary cost per scenario",
               "floats are exact reals"]
OPTS = dict(nl="mono")


def bounds(tier):
    N = 5 if tier == "quick" else 6
    return "every N<=%d, every number of subsets, every permutation drawn, every vector of single-scenario costs (ties included)" % N


def configs(tier):
    out = []
    for N in range(1, 6 if tier == "quick" else 7):
        for nb in range(1, N + 1):
            if not (N == 5 and nb in (1, 5)) or tier == "thorough":
                out.append(dict(kind="init", type="random", N=N, nb=nb))
                out.append(dict(kind="init", type="cost", N=N, nb=nb))
        for eps in ("0", "0.2", "0.4", "0.5", "0.67"):
            if N <= (4 if tier == "quick" else 5):
                for t in ("random", "cost"):
                    out.append(dict(kind="solver", type=t, N=N, eps=eps))
    return out


def harness(ctx, cfg):
    N = cfg["N"]
    orc = cost_oracle(ctx, N, 1)
    w = World(ctx, oracle=orc)
    eps = float(cfg.get("eps", "0.5"))
    inst, A, b, c = sym_instance(w, N, 1, 1, True, eps)
    orc.bind(A, b, c)
    if cfg["kind"] == "init":
        nb = cfg["nb"]
        part_inst = w.get("src.instance.PartitionChanceKnapInstance", "PartitionChanceKnapInstance")(inst)
        ini = w.get("src.Initializer", "Initializer")(inst, part_inst)
        p = ini.create_first_partition(nb, partition_type=cfg["type"])
    else:
        nb = kfloor(cfg["eps"], N) + 1
        ap = w.get("src.solver.AdaptivePartitioner", "AdaptivePartitioner")(inst, initial_partition_type=cfg["type"])
        p = ap.partition
        ctx.check(int(ap.nb_subsets) == nb and int(ap.minimum_partition_size) == nb, "starts with floor(eps*N)+1 subsets")
        P = ap.chance_instance_part
        ctx.check(int(P.get_nb_scenarios()) == nb, "the loaded partition has as many subsets")
        for g, grp in enumerate(p):
            rows = P.get_matrix_A(g)
            ctx.check(rows.shape[0] == len(grp), "the loaded partition is another one")
            for i, s in enumerate(sorted(int(v) for v in grp)):
                ctx.check(zor([ctx.eq(rows[q, 0], A[s][0][0]) for q in range(len(grp))]), "the loaded partition is another one")
    is_partition(ctx, p, N, "initial partition", nb)
    sizes = [len(q) for q in p]
    ctx.check(max(sizes) - min(sizes) <= 1, "subset sizes differ by more than one")
    if cfg["type"] == "cost":
        where = {int(s): g for g, q in enumerate(p) for s in q}
        cost = [orc.cost[(s,)] for s in range(N)]
        # scenarios strictly separated by at most nb-1 ranks must lie in different subsets
        for s in range(N):
            for t in range(s):
                if where[s] == where[t]:
                    lo, hi = (s, t)
                    for a_, b_ in ((s, t), (t, s)):
                        # a_ strictly cheaper than b_ with fewer than nb scenarios in [cost a_, cost b_]: forbidden
                        between = count([zand(cost[u] >= cost[a_], cost[u] <= cost[b_]) for u in range(N)])
                        ctx.check(znot(zand(cost[a_] < cost[b_], between <= nb)),
                                  "scenarios less than floor(eps*N)+1 cost ranks apart share a subset")
                    same = count([cost[u] == cost[s] for u in range(N)])
                    ctx.check(znot(zand(cost[s] == cost[t], same <= nb)), "equally ranked scenarios share a subset")
