"""P18: the projection selects the right scenarios."""
from .common import *
from vf import models as M, npshim

FUNCTIONS = ["LowerBounder.deterministic_bound", "LowerBounder._get_index_scenarios", "LowerBounder._get_scenarios_violation_index",
             "LowerBounder._get_selected_scenarios", "LowerBounder.save_feasible_scenarios", "ChanceKnapInstance.check_feasibility",
             "ChanceKnapInstance.get_feasible_scenarios"]
SOURCES = ["src/LowerBounder.py", "src/instance/ChanceKnapInstance.py"]
ASSUMPTIONS = ["floats are exact reals", "a violation between 0 and 2e-3 may be ranked as no violation (the code's tolerance is 1e-3)",
               "with two variables row norms are abstracted by their basic bounds (counterexamples are exact)"]


def bounds(tier):
    return "N<=%d, m<=2, n<=2, arbitrary data and points; counter rule after up to %d arbitrary sets of satisfied scenarios and checked points" % (
        (4, 3) if tier == "quick" else (5, 3))


def configs(tier):
    out = []
    for N, m, n, eps, mode in ((1, 1, 1, "0.5", "nl"), (2, 1, 1, "0.5", "nl"), (2, 2, 1, "0.5", "nl"), (3, 1, 1, "0.34", "nl"),
                               (3, 1, 1, "0.67", "nl"), (2, 1, 2, "0.5", "nl"), (3, 1, 1, "0", "nl"), (3, 2, 1, "0.34", "nl")) + (
                                   ((4, 1, 1, "0.5", "nl"), (3, 1, 2, "0.34", "nl"), (2, 2, 2, "0.5", "nl")) if tier == "thorough" else ()):
        out.append(dict(rule="rescaled_max_violation", N=N, m=m, n=n, eps=eps, _opts=dict(nl=mode, timeout_ms=60000)))
    for N, eps in ((2, "0.5"), (3, "0.34"), (3, "0.67"), (4, "0.5"), (4, "0.25")):
        for hist in ("masks", "point"):
            if not (hist == "point" and N > 3):
                out.append(dict(rule="counter", N=N, m=1, n=1, eps=eps, hist=hist, steps=3 if (hist == "masks" and N <= 3) or (tier != "quick" and N <= 3) else 2, _opts=dict(nl="mono")))
    return out


def harness(ctx, cfg):
    N, m, n = cfg["N"], cfg["m"], cfg["n"]
    k = kfloor(cfg["eps"], N)
    got = []

    def oracle(model, cb):
        xs = ordered_x(ctx, model, c)
        S, rest = M.enforced(ctx, model, xs, A, b)
        got.append(sorted(S))
        model.set_solution({v._id: 0.0 for v in model._vars}, 0.0, 0.0)
    w = World(ctx, oracle=oracle)
    inst, A, b, c = sym_instance(w, N, m, n, True, float(cfg["eps"]))
    np = w.shims["numpy"]
    lb = w.get("src.LowerBounder", "LowerBounder")(inst, projection_method=cfg["rule"])
    lb.vLB = -INF
    if cfg["rule"] == "counter":
        cnt = [0] * N
        for t in range(cfg["steps"]):
            if cfg["hist"] == "masks":
                mask = [ctx.choice(2, "mask") == 1 for _ in range(N)]
                arr = np.array(mask)
            else:
                # as the adaptive method does it: the mask of the last checked point
                x = [ctx.real("q_%d_%d" % (t, j), npf=True) for j in range(n)]
                inst.check_feasibility(np.array(x))
                arr = inst.get_feasible_scenarios()
                mask = [bool(v) for v in arr]
                for s in range(N):
                    viol = [dot(A[s][i], x) - b[i] for i in range(m)]
                    ctx.assume(zor(zand([v <= 5e-7 for v in viol]), zor([v > 2e-6 for v in viol])))
                    ctx.check(ctx.iff(mask[s], zand([v <= 5e-7 for v in viol])), "a satisfied scenario is not counted as such")
            lb.save_feasible_scenarios(arr)
            cnt = [q + int(v) for q, v in zip(cnt, mask)]
            if t == 0:
                lb.deterministic_bound(np.array([0.5] * n))
        got.clear()
        lb.deterministic_bound(np.array([0.5] * n))
        ctx.check(len(got) == 1 and len(got[0]) == N - k == len(set(got[0])), "not exactly N-floor(eps*N) scenarios selected")
        out = [s for s in range(N) if s not in got[0]]
        ctx.check(all(cnt[s] >= cnt[t] for s in got[0] for t in out), "a scenario left out was satisfied more often than a selected one")
        return
    lb.save_feasible_scenarios(np.array([True] * N))
    x = [ctx.real("x_%d" % j, 0, 1, npf=True) for j in range(n)]
    lb.deterministic_bound(np.array(x))
    ctx.check(len(got) == 1 and len(got[0]) == N - k == len(set(got[0])), "not exactly N-floor(eps*N) scenarios selected")
    out = [s for s in range(N) if s not in got[0]]
    norm = npshim.norm_of if ctx.symbolic else (lambda r: sum(v * v for v in r) ** 0.5)

    def resc(s, i):
        d = dot(A[s][i], x) - b[i]
        if ctx.symbolic:
            if not ctx.fork(zb(d >= 1e-3)):
                return 0
            return d / norm(A[s][i])
        return d / norm(A[s][i]) if d >= 1e-3 else 0.0
    mx = (E.smax if ctx.symbolic else max)
    for t in out:
        tv = mx([resc(t, i) for i in range(m)])
        for s in got[0]:
            sv = mx([resc(s, i) for i in range(m)])
            for i in range(m):
                # zones between 0 and the tolerance are undecided
                ctx.assume(zor(dot(A[s][i], x) - b[i] <= 0, dot(A[s][i], x) - b[i] >= 2e-3))
                ctx.assume(zor(dot(A[t][i], x) - b[i] <= 0, dot(A[t][i], x) - b[i] >= 2e-3))
            ctx.check(ctx.le(sv, tv), "a scenario left out is violated less than a selected one")
            ctx.check(zimp(sat(A[t], b, x), sat(A[s], b, x, tol=2e-3)), "a satisfied scenario is left out while a violated one is selected")
