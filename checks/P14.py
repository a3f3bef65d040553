"""P14: the reference (pure Python) violation bounds are exact."""
from .common import *
from vf import models as M

FUNCTIONS = ["song_big_m.solve_continuous_knapsack", "song_big_m.song_min_s_prime_violation", "song_big_m.single_scenario_iter",
             "song_big_m.compute_all_violations"]
SOURCES = ["src/song_big_m.py"]
ASSUMPTIONS = ["floats are exact reals", "the table's larger sizes take the knapsack routine at its specified value (decided separately), "
               "its smallest size runs everything"]
OPTS = dict(nl="nl", grid={}, timeout_ms=30000)


def bounds(tier):
    return ("knapsack: n<=%d items, all nonnegative revenues, weights, capacities, any constant; table: N<=2 scenarios, m<=2, n<=2, or N=3, m=1, n=1"
            % 3)


def configs(tier):
    out = [dict(kind="knap", n=n, bsign=s) for n in (1, 2, 3) for s in (0,)]
    out += [dict(kind="knap", n=3, bsign=0, zero=[1])]
    out += [dict(kind="table", N=1, m=1, n=1, stub=False), dict(kind="table", N=2, m=1, n=1, stub=False),
            dict(kind="table", N=2, m=1, n=1, stub=True), dict(kind="table", N=2, m=2, n=1, stub=True),
            dict(kind="table", N=1, m=2, n=2, stub=True), dict(kind="table", N=2, m=1, n=2, stub=True),
            dict(kind="table", N=3, m=1, n=1, stub=True)]
    if tier == "thorough":
        out += [dict(kind="table", N=2, m=2, n=2, stub=True), dict(kind="table", N=3, m=2, n=1, stub=True),
                dict(kind="table", N=1, m=2, n=1, stub=False)]
    return out


def harness(ctx, cfg):
    w = World(ctx)
    np = w.shims["numpy"]
    n = cfg["n"]
    if cfg["kind"] == "knap":
        zero = cfg.get("zero", [])
        r = [ctx.real("r_%d" % j, 0, npf=True) for j in range(n)]
        t = [0.0 if j in zero else ctx.real("t_%d" % j, 0, npf=True) for j in range(n)]
        const = ctx.real("const", npf=True)
        cap = ctx.real("cap", 0, npf=True)
        R, W = np.array(r), np.array(t)
        got = w.get("src.song_big_m", "solve_continuous_knapsack")(R, const, W, cap)
        vs = list(kvertices(ctx, r, const, t, cap))
        for ok, val in vs:
            ctx.check(ctx.le(val, got), "a point within the capacity violates more than the returned maximum", when=ok)
        ctx.check(zor([zand(ok, ctx.eq(val, got)) for ok, val in vs]), "the returned maximum is not attained")
        ctx.check(len(R) == n and len(W) == n and zand([ctx.eq(R[j], r[j]) for j in range(n)] + [ctx.eq(W[j], t[j]) for j in range(n)]),
                  "the arguments were modified")
        return
    N, m = cfg["N"], cfg["m"]
    A = [[[ctx.real("A_%d_%d_%d" % (s, i, j), 0, npf=True) for j in range(n)] for i in range(m)] for s in range(N)]
    b = [[ctx.real("b_%d_%d" % (s, i), 0, npf=True) for i in range(m)] for s in range(N)]
    mod = w.load("src.song_big_m")
    memo = {}

    def spec(s, i, t, l):
        if (s, i, t, l) not in memo:
            memo[s, i, t, l] = kmax(ctx, A[s][i], b[s][i], A[t][l], b[t][l])
        return memo[s, i, t, l]
    if cfg["stub"] and ctx.symbolic and hasattr(mod, "solve_continuous_knapsack"):
        def find(row, rhs):
            for s in range(N):
                for i in range(m):
                    if len(row) == n and all(M.same(p, q) for p, q in zip(row, A[s][i])) and M.same(rhs, b[s][i]):
                        return s, i
            raise E.Unsupported("knapsack called with unexpected data")

        def knap(revenue, obj_constant, weights, capacity):
            return spec(*(find(list(revenue), obj_constant) + find(list(weights), capacity)))
        mod.solve_continuous_knapsack = knap
    got = mod.compute_all_violations(np.array(A), np.array(b))
    ctx.check(tuple(got.shape) == (N, N, m), "shape of the table")
    for s in range(N):
        for t in range(N):
            for i in range(m):
                want = [spec(s, i, t, l) for l in range(m)]
                ctx.check(zand([ctx.le(got[s, t, i], v) for v in want]), "entry above the maximum under one constraint of t")
                ctx.check(zor([ctx.eq(got[s, t, i], v) for v in want]), "entry is not the minimum over the constraints of t")
