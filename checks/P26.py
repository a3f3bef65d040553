"""P26: generated instances load back as generated."""
import types

import numpy as realnp
from z3 import z3util

from .common import *
from vf import models as M

FUNCTIONS = ["data/cc-instances/knapsack/instance-generator.py (whole script)", "ChanceKnapInstance.__init__ and the loader"]
SOURCES = ["data/cc-instances/knapsack/instance-generator.py", "src/instance/ChanceInstance.py", "src/instance/ChanceKnapInstance.py"]
ASSUMPTIONS = ["the random generator may return any value: normal deviates any real, exponential ones any nonnegative real, binomial ones 0 or 1",
               "floats are exact reals; files carry four decimals, so a value within 0.00005 of a tie may be rounded either way"]
OPTS = dict(nl="mono", grid={})


def bounds(tier):
    return "base files with n<=2, m<=2 and arbitrary nonnegative data, N<=%d scenarios, 1 or 2 instances, all draws" % (2 if tier == "quick" else 3)


def configs(tier):
    out = [dict(n=1, m=1, N=1, K=1), dict(n=2, m=1, N=2, K=1), dict(n=1, m=2, N=2, K=1), dict(n=2, m=2, N=1, K=1), dict(n=1, m=1, N=2, K=2),
           dict(n=1, m=1, N=3, K=1), dict(n=2, m=3, N=1, K=1), dict(n=2, m=2, N=2, K=1, fail=[0, 1, 1, 0])]
    if tier == "thorough":
        out += [dict(n=2, m=1, N=3, K=1), dict(n=3, m=1, N=2, K=1), dict(n=2, m=2, N=2, K=1), dict(n=2, m=1, N=2, K=2)]
    return out


def harness(ctx, cfg):
    n, m, N, K = cfg["n"], cfg["m"], cfg["N"], cfg["K"]
    nr = types.ModuleType("numpy.random")
    w = World(ctx, np_random=nr)
    np = w.shims["numpy"]
    c = [ctx.real("obj_%d" % j, 0) for j in range(n)]
    A = [[ctx.real("base_%d_%d" % (i, j), 0) for j in range(n)] for i in range(m)]
    b = [ctx.real("rhs_%d" % i, 0) for i in range(m)]
    # draws: samples of each coefficient, failures of each item, both in the order in which they are drawn
    exps, samples, failed, loose = {}, {}, {}, []

    def shape(size, *params):
        if size is None:
            size = max((realnp.shape(p) for p in params), key=len)
        return tuple(int(v) for v in (size if realnp.ndim(size) else [size])) if not isinstance(size, tuple) else tuple(int(v) for v in size)

    def broadcast(p, shp):
        q = realnp.empty((), dtype=object)
        if isinstance(p, realnp.ndarray):
            q = p.astype(object)
        else:
            q[()] = p
        return list(realnp.broadcast_to(q, shp).reshape(-1))

    def result(vals, shp, scalar):
        if scalar:
            return vals[0]
        out = realnp.empty(len(vals), dtype=object)
        for q, v in enumerate(vals):
            out[q] = v
        return np.array(out.reshape(shp).tolist()) if len(vals) else np.zeros(shp)

    def exponential(scale=1.0, size=None):
        shp = shape(size, scale)
        v = []
        for q in range(int(realnp.prod(shp))):
            name = ctx.fresh("exp")
            ctx.check(zb(ctx.eq(broadcast(scale, shp)[q], 0.1).holds), "failure probabilities are not drawn with mean 0.1")
            v.append(ctx.real(name, 0))
            exps[name] = len(exps)
        return result(v, shp, shp == ())

    def recorded(kind, hit):
        """What was found out about a draw while exploring, repeated in replays."""
        if ctx.symbolic:
            ctx.replay_extra.setdefault(kind, []).append(hit)
            return hit
        q, t = ctx.replay_extra.get(kind, []), ctx.cnt.get(kind, 0)
        ctx.cnt[kind] = t + 1
        if t >= len(q):
            raise E.ReplayMismatch("a draw that was not made before")
        return tuple(q[t]) if isinstance(q[t], list) else q[t]

    def binomial(q, p, size=None):
        if realnp.ndim(q) or int(q) != 1:
            raise E.Unsupported("unexpected draw")
        shp = shape(size, p)
        v = []
        for e in broadcast(p, shp):
            ctx.check(zand(e >= 0, e <= 1), "a failure probability outside [0,1] reaches the random generator")
            who = None
            if ctx.symbolic and E.issym(e):
                names = {str(t) for t in z3util.get_vars(E.z(e))} & set(exps)
                who = exps[names.pop()] if len(names) == 1 else None
            who = recorded("who", who)
            k = len(loose)
            fixed = cfg.get("fail")
            f = fixed[k % len(fixed)] if fixed else int(bool(ctx.bool(ctx.fresh("fail"))))
            loose.append(f)
            if who is not None:
                failed.setdefault(who, []).append(f)
            v.append(f)
        return result(v, shp, shp == ())

    def normal(loc=0.0, scale=1.0, size=None):
        shp = shape(size, loc, scale)
        v = []
        for lo, sc in zip(broadcast(loc, shp), broadcast(scale, shp)):
            hit = recorded("loc", ([(i, j) for i in range(m) for j in range(n) if M.same(lo, A[i][j])] or [None])[0] if ctx.symbolic else None)
            if hit is None or (not ctx.symbolic and abs(A[hit[0]][hit[1]] - lo) > 1e-9):
                raise E.Unsupported("mean of a draw is not a base coefficient")
            base = A[hit[0]][hit[1]]
            ctx.check(ctx.eq(sc, 0.1 * base), "the standard deviation of a coefficient is not a tenth of it")
            d = ctx.real(ctx.fresh("draw"), npf=True)
            samples.setdefault(hit, []).append(d)
            v.append(d)
        return result(v, shp, shp == ())
    rng = types.SimpleNamespace(exponential=exponential, binomial=binomial, normal=normal)
    nr.exponential, nr.binomial, nr.normal = exponential, binomial, normal
    nr.default_rng = lambda *a: rng
    nr.seed = lambda *a: None
    nr.RandomState = lambda *a: rng
    w.put("/base/mknap.txt", [[n, m], c] + A + [b], delimiter=" ")
    before = set(w.files)
    w.run_script("data/cc-instances/knapsack/instance-generator.py", ["/base/mknap.txt", str(N), str(K)])
    new = sorted(set(w.files) - before)
    names = ["ccmknap-%d-%d-%d-%d" % (n, m, N, q + 1) for q in range(K)]
    ctx.check(sorted(f.rsplit("/", 1)[-1] for f in new) == [q + ".csv" for q in names], "one file per instance, named after its sizes and number")
    ctx.check(len(samples) == n * m and all(len(v) == K * N for v in samples.values()), "number of samples of a coefficient")
    ctx.check(len(loose) == K * N * n, "not every item may fail in every scenario")
    # item j of instance q failed as drawn with its probability, in the order of the scenarios; if the draws are not of this form,
    # an item counts as failed if any of its coefficients shows it
    strict = sorted(failed) == list(range(K * n)) and all(len(v) == N for v in failed.values())
    for q in range(K):
        path = [f for f in new if f.endswith(names[q] + ".csv")][0]
        inst = w.get("src.instance.ChanceKnapInstance", "ChanceKnapInstance")(path, True, 0.1)
        ctx.check((int(inst.get_nb_vars()), int(inst.get_nb_scenarios())) == (n, N), "sizes")
        ctx.check(all(int(inst.get_nb_constraints(s)) == m for s in range(N)), "number of constraints")
        for j in range(n):
            ctx.check(near(ctx, inst.get_vector_c()[j], c[j]), "objective is not the base objective")
        for s in range(N):
            for i in range(m):
                ctx.check(near(ctx, inst.get_vector_b(s)[i], b[i]), "right-hand side is not the base right-hand side")
                for j in range(n):
                    ctx.check(ctx.le(0, inst.get_matrix_A(s)[i, j]), "negative coefficient")
            for j in range(n):
                got = [inst.get_matrix_A(s)[i, j] for i in range(m)]
                drawn = [samples[i, j][q * N + s] for i in range(m)]
                zero = zand([ctx.eq(g, 0) for g in got])
                value = zand([near(ctx, g, E.ite(d > 0, d, 0.0)) for g, d in zip(got, drawn)])
                if not strict:
                    ctx.check(zor(zero, value), "a failed item with a nonzero coefficient, or a coefficient that is not the sampled one rounded")
                elif failed[q * n + j][s]:
                    ctx.check(zero, "failed item with a nonzero coefficient")
                else:
                    ctx.check(value, "coefficient is not the sampled one rounded")


def near(ctx, got, v):
    """got is v (written with four decimals) rounded to one decimal."""
    if ctx.symbolic:
        g, x = E.z(got), E.z(v)
        t = z3.RealVal("0.05005")
        return z3.And(z3.IsInt(z3.ToReal(g) * 10 if g.is_int() else g * 10), g - x <= t, x - g <= t)
    return abs(got * 10 - round(got * 10)) < 1e-6 and abs(got - v) <= 0.05005 + 1e-9
