"""Shared pieces of the harnesses: specification-side arithmetic, written independently of the repository's code."""
from fractions import Fraction

import z3

from vf import engine as E
from vf.engine import zand, zor, znot, zimp, zb
from vf.world import World, sym_instance

INF = float("inf")


def kfloor(eps, N):
    """floor(eps*N) for eps given as a decimal with at most two digits (or a fraction string)."""
    return (Fraction(str(eps)).limit_denominator(1000) * N).__floor__()


def dot(a, x):
    """sum a_j x_j, x_j boolean terms allowed."""
    r = 0
    for p, q in zip(a, x):
        if isinstance(q, (E.SymBool,)):
            t = E.ite(q.e, p, 0)
        elif not E.issym(q) and q == 0:
            t = 0
        elif not E.issym(q) and q == 1:
            t = p
        else:
            t = p * q
        r = r + t
    return r


def sat(A_s, b, x, tol=0):
    """Scenario s holds at x."""
    return zand([dot(r, x) <= b[i] + tol for i, r in enumerate(A_s)])


def count(conds):
    """Number of true conditions, as a term."""
    r = 0
    for c in conds:
        c = zb(c)
        r = r + E.ite(c, 1, 0)
    return r


def chance_feasible(A, b, x, k, tol=0):
    return count([znot(sat(a, b, x, tol)) for a in A]) <= k


def partitions(n, max_block=None):
    """All set partitions of range(n), canonical order."""
    def rec(i, blocks):
        if i == n:
            yield [list(b) for b in blocks]
            return
        for b in blocks:
            b.append(i)
            yield from rec(i + 1, blocks)
            b.pop()
        blocks.append([i])
        yield from rec(i + 1, blocks)
        blocks.pop()
    yield from rec(0, [])


def is_partition(ctx, p, N, msg, nb=None):
    """p is a list of nonempty lists holding each of range(N) exactly once."""
    ok = all(len(c) > 0 for c in p)
    flat = sorted(int(s) for c in p for s in c)
    ctx.check(ok and flat == list(range(N)), msg + ": not a partition into nonempty subsets")
    if nb is not None:
        ctx.check(len(p) == nb, msg + ": wrong number of subsets")


class CostOracle:
    """MIP stand-in for deterministic models: one arbitrary value (and point) per set of enforced scenarios."""

    def __init__(self, ctx, N, n, feasible_value=None, points=False):
        self.ctx, self.N, self.n, self.points = ctx, N, n, points
        self.cost, self.sol, self.log = {}, {}, []

    def bind(self, A, b, c):
        self.A, self.b, self.c = A, b, c

    def __call__(self, model, cb):
        from vf import models as M
        ctx = self.ctx
        if len(model._vars) != self.n:
            raise E.Unsupported("unexpected model")
        xs = ordered_x(ctx, model, self.c)
        S, rest = M.enforced(ctx, model, xs, self.A, self.b)
        if rest:
            raise E.Unsupported("model has constraints that belong to no scenario")
        key = tuple(sorted(S))
        if key not in self.cost:
            t = "_".join(map(str, key))
            self.cost[key] = ctx.real("cost_" + t)
            self.sol[key] = [ctx.real("sol_%s_%d" % (t, j), 0, 1, npf=True) for j in range(self.n)]
        self.log.append(key)
        model.set_solution({v._id: x for v, x in zip(xs, self.sol[key])}, self.cost[key], self.cost[key])


def cost_oracle(ctx, N, n):
    return CostOracle(ctx, N, n)


def ordered_x(ctx, model, c):
    """The x variables of a model in item order, recognised by their objective coefficients."""
    from vf import models as M
    key = "ordered_x"
    if ctx.symbolic:
        out = []
        for cj in c:
            hit = [i for i, v in enumerate(model._vars) if v._id in model._objexpr.terms
                   and i not in out and M.same(model._objexpr.terms[v._id][1], cj)]
            if not hit:
                raise E.Unsupported("x variables not recognised")
            out.append(hit[0])
        ctx.replay_extra.setdefault(key, []).append(out)
    else:
        q = ctx.replay_extra.get(key, [])
        pos = ctx.cnt.get(key, 0)
        ctx.cnt[key] = pos + 1
        if pos >= len(q) or max(q[pos], default=-1) >= len(model._vars):
            raise E.ReplayMismatch("no recorded model")
        out = q[pos]
    return [model._vars[i] for i in out]


def kvertices(ctx, r, const, wts, cap):
    """Vertices of {x in [0,1]^n : wts.x <= cap}: pairs (condition for being feasible, objective value r.x - const).

    A vertex has at most one fractional coordinate, which makes the capacity tight."""
    import itertools
    n = len(r)
    for bits in itertools.product((0, 1), repeat=n):
        used = dot(wts, bits)
        yield used <= cap, dot(r, bits) - const
    for f in range(n):
        for bits in itertools.product((0, 1), repeat=n - 1):
            bits = list(bits[:f]) + [0] + list(bits[f:])
            used = dot(wts, bits)
            rest = cap - used
            ok = zand(wts[f] > 0, rest >= 0, rest <= wts[f])
            if ctx.symbolic:
                q = E.SymNum(ctx.quotient(E.z(rest * 1.0), E.z(wts[f])))
            else:
                q = rest / wts[f] if wts[f] else 0.0
            yield ok, dot(r, bits) + r[f] * q - const


def kmax(ctx, r, const, wts, cap):
    """Largest value of r.x - const over that set (cap >= 0), as a term."""
    best = None
    for ok, val in kvertices(ctx, r, const, wts, cap):
        best = val if best is None else E.ite(zand(ok, val > best), val, best)
    return best
