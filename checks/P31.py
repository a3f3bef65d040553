"""P31: cost-based split decisions are consistent and memo-safe."""
from .common import *
from .P07 import SplitOracle

FUNCTIONS = ["Refiner.refine", "CostRefiner._evaluate_accurate_splits", "CostRefiner._evaluate_single_accurate_split",
             "CostRefiner._perform_accurate_split", "CostRefiner._get_sorted_subsets", "CostRefiner.accurate_obj_split",
             "AccObjModel.build", "AccObjModel.get_subsets", "Merger.merge_all"]
SOURCES = ["src/refiner/CostRefiner.py", "src/refiner/Refiner.py", "src/optim/AccObjModel.py", "src/Merger.py"]
ASSUMPTIONS = ["the split model's answer is any assignment of its 0/1 variables satisfying the constraints on them alone, with any nonnegative value; "
               "asked again about the same scenarios it answers the same"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "N<=%d scenarios, selected sets of violated scenarios, arbitrary split values, halves and upper bounds; up to three refinements by the same " \
        "object with merges in between" % (5 if tier == "quick" else 6)


def configs(tier):
    out = []
    # one refinement: partition, violated scenarios, budget
    one = [([[0, 1], [2, 3]], [0, 1, 2, 3], 2), ([[0, 1, 2, 3]], [0, 1, 2], 1), ([[0, 1, 2, 3]], [0, 1, 2, 3], 2),
           ([[2, 1, 0], [3]], [0, 1, 2, 3], 2), ([[0, 1], [2, 3], [4]], [0, 1, 2, 3], 2), ([[0, 1], [2, 3]], [0, 1, 2, 3], 3),
           ([[0, 1], [4], [2, 3]], [0, 1, 2, 3, 4], 3)]
    if tier == "thorough":
        one += [([[0, 1], [2, 3], [4, 5]], list(range(6)), 3), ([[0, 1, 2], [3, 4]], list(range(5)), 2),
                ([[0, 1], [2, 3], [4, 5]], list(range(6)), 4), ([[0, 1, 2, 3]], [0, 1, 2, 3], 3)]
    for p, bad, k in one:
        out.append(dict(part=p, bad=bad, k=k, again=0))
    many = [([[0, 1, 2]], [0, 1, 2], 1), ([[0, 1, 2]], [0, 1, 2], 2), ([[0, 1], [2, 3]], [0, 1, 2, 3], 2), ([[0, 1, 2], [3]], [0, 1, 3], 2)]
    if tier == "thorough":
        many += [([[0, 1, 2, 3]], [0, 1, 2], 1), ([[0, 1], [2, 3], [4]], [0, 1, 2, 3], 2), ([[0, 1, 2], [3, 4]], [0, 1, 2, 3, 4], 2)]
    out.append(dict(part=[[0, 1, 2, 3]], bad=[0, 1, 2, 3], k=2, again=1, fixed=True))
    for p, bad, k in many:
        out.append(dict(part=p, bad=bad, k=k, again=1))
        out.append(dict(part=p, bad=bad, k=k, again=2))
        out.append(dict(part=p, bad=bad, k=k, again=2 if len(p) == 1 or tier == "thorough" and len(bad) < 5 else 1, other=True))
    # another set of violated scenarios at each refinement
    moving = [([[0, 1, 2]], [[0, 1], [1, 2]], 1), ([[0, 1, 2, 3]], [[0, 1], [2, 3]], 1), ([[0, 1, 2]], [[0, 1, 2], [0, 2], [0, 1]], 1),
              ([[0, 1], [2, 3]], [[0, 1, 3], [0, 1, 2]], 2), ([[0, 1, 2], [3]], [[0, 1, 2], [1, 2, 3]], 2)]
    sets = [[0, 1], [0, 2], [1, 2], [0, 1, 2]]
    moving += [([[0, 1, 2]], [a, b], 1) for a in sets for b in sets if a != b]
    moving += [([[0, 1, 2, 3]], [a, b], 1) for a, b in (([0, 3], [1, 2]), ([0, 1], [0, 3]), ([0, 3], [1, 3]))]
    if tier == "thorough":
        moving += [([[0, 1, 2, 3]], [[0, 1, 2], [1, 2, 3], [0, 1, 3]], 1), ([[0, 1, 2], [3, 4]], [[0, 1, 3], [1, 2, 4], [0, 1, 4]], 2)]
    for p, bads, k in moving:
        out.append(dict(part=p, bads=bads, k=k, again=len(bads) - 1))
    return out


def allowed(cands, g, vub):
    """Splitting g is what the rule prescribes among the candidate costs."""
    free = [v <= vub for v in cands.values()]
    best = zand(cands[g] <= vub, [zimp(v <= vub, v <= cands[g]) for v in cands.values()])
    least = zand([znot(f) for f in free] + [cands[g] <= v for v in cands.values()])
    return zor(best, least)


def outcomes(state, bad, mu, ans, vub, cond):
    """All (condition, partition) reachable by mu splits following the rule."""
    if mu == 0:
        yield cond, frozenset(state)
        return
    if any(len(g & bad) >= 2 and (g, g & bad) not in ans for g in state):
        return                                       # not all candidates were evaluated
    cands = {g: ans[g, g & bad][0] for g in state if len(g & bad) >= 2}
    for g in cands:
        nxt = [q for q in state if q is not g] + [ans[g, g & bad][1], ans[g, g & bad][2]]
        yield from outcomes(nxt, bad, mu - 1, ans, vub, zand(cond, allowed(cands, g, vub)))


def harness(ctx, cfg):
    part = cfg["part"]
    N = sum(map(len, part))
    k = cfg["k"]
    eps = "%.3f" % ((k + 0.5) / N)
    bads = [frozenset(q) for q in cfg.get("bads") or [cfg["bad"]]]
    T = len(bads)
    w = World(ctx, oracle=SplitOracle(ctx))
    # the point e_t violates exactly the scenarios of bads[t]
    inst, A, b, c = sym_instance(w, N, 1, T, True, float(eps), A=[[[2.0 if s in q else 0.5 for q in bads]] for s in range(N)], b=[1.0],
                                 c=[1.0] * T)
    r = w.get("src.refiner.CostRefiner", "CostRefiner")(inst, use_acc_obj=True)
    mg = w.get("src.Merger", "Merger")(inst, w.get("src.instance.PartitionChanceKnapInstance", "PartitionChanceKnapInstance")(inst))
    ans, st = {}, {}
    real = r.accurate_obj_split

    def spy(scenarios, infeasible, *a, **kw):
        g = frozenset(int(s) for s in scenarios)
        key = (g, g & st["bad"])
        ctx.check(set(map(int, infeasible)) & g == key[1], "split model built for the wrong violated scenarios")
        cost, left, right = real(scenarios, infeasible, *a, **kw)
        L, R = frozenset(map(int, left)), frozenset(map(int, right))
        ctx.check(L | R == g and not (L & R) and len(L) + len(R) == len(left) + len(right), "the halves do not divide the subset")
        if key in ans:
            ctx.assume(zand({L, R} == {ans[key][1], ans[key][2]}, ctx.eq(cost, ans[key][0])))
            ctx.feasible()
        else:
            ans[key] = (cost, L, R)
        return cost, left, right
    r.accurate_obj_split = spy
    cur = [list(g) for g in part]
    np = w.shims["numpy"]

    def hit(p, q):
        return sum(1 for g in p if set(g) & q)
    for step in range(1 + cfg["again"]):
        bad = st["bad"] = bads[step % T]
        x = np.array([float(t == step % T) for t in range(T)])
        vub = 1e9 if cfg.get("fixed") else ctx.real("vUB_%d" % step, 0)
        inst.check_feasibility(x)
        r.vUB = vub
        r.subset_costs = [float(q % 3) for q in range(len(cur))]
        before = [frozenset(g) for g in cur]
        given = [list(g) for g in cur]
        mu = k + 1 - hit(before, bad)
        nb, new = r.refine(cur, x)
        ctx.check(cur == given, "the caller's partition was modified")
        for g in before:
            if len(g & bad) >= 2:
                ctx.check((g, g & bad) in ans, "a subset with at least two violated scenarios was not evaluated")
        got = frozenset(frozenset(map(int, g)) for g in new)
        ctx.check(sum(len(g) for g in new) == N and len(got) == len(new), "refined partition is not a partition")
        ctx.check(zor([cd for cd, p in outcomes(before, bad, mu, ans, vub, z3true()) if p == got] + [False]),
                  "a split is not one the rule prescribes", info="refinement %d" % (step + 1))
        cur = new
        if step < cfg["again"]:
            # unite pairs of subsets again until a refinement is due; the uniting is done by the merger, as in a run
            bad = bads[(step + 1) % T]
            most = hit(part, bad)
            while hit(cur, bad) > most or len(cur) > len(part):
                pairs = [(p, q) for p in range(len(cur)) for q in range(p + 1, len(cur))]
                back = [(p, q) for p, q in pairs if any(frozenset(cur[p] + cur[q]) == g for g, _ in ans)]
                pick = back if back and not cfg.get("other") else pairs
                p, q = pick[ctx.choice(len(pick), "unite")]
                cur, nbs = mg.merge_all(cur, [p, q])
            mu = k + 1 - hit(cur, bad)
            # enough violated scenarios to split as often as needed
            if mu < 1 or sum(max(len(set(g) & bad) - 1, 0) for g in cur) < mu:
                raise E.Prune()


def z3true():
    return zand()
