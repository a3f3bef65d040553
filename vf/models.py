"""Semantics of recorded MIP models and stand-ins for the solver."""
from fractions import Fraction

import numpy as np
import z3

from . import engine as E
from .engine import zand, zor, znot, zimp, zb


def assign(pairs):
    """pairs: (Var, value); -> val function."""
    d = {v._id: x for v, x in pairs}

    def val(v):
        if v._id not in d:
            raise E.Unsupported("model has a variable the harness does not know: %s" % v.varname)
        return d[v._id]
    return val


def xvars(opti, n):
    return [opti.var_x[j] for j in range(n)]


def row_matches(con, xs, row, rhs):
    """con is the linear constraint row.x <= rhs (structurally)."""
    if con.kind != "lin" or con.sense_ != "<":
        return False
    ids = {v._id: c for v, c in con.expr.terms.values()}
    if set(ids) - {v._id for v in xs}:
        return False
    for v, a in zip(xs, row):
        if not same(ids.get(v._id, 0), a):
            return False
    return same(con.expr.const * -1, rhs)


def same(p, q):
    if E.issym(p) or E.issym(q):
        p, q = E.z(p), E.z(q)
        if p.eq(q):
            return True
        return z3.is_true(z3.simplify(p - q == 0))
    return abs(float(p) - float(q)) <= 1e-9


def enforced(ctx, model, xs, A, b):
    """Scenarios whose rows are all in the model, and the remaining constraints.

    In replays equal rows are ambiguous; the answer of the symbolic run is then reused after checking it."""
    key = "enforced"
    if ctx.symbolic:
        used = set()
        out = []
        for s in range(len(A)):
            hit = []
            for i, r in enumerate(A[s]):
                h = next((k for k, c in enumerate(model._constrs) if k not in used and row_matches(c, xs, r, b[i])), None)
                hit.append(h)
            if all(h is not None for h in hit):
                out.append(s)
                used |= set(hit)
        rest = [k for k in range(len(model._constrs)) if k not in used]
        ctx.replay_extra.setdefault(key, []).append([out, rest])
    else:
        q = ctx.replay_extra.get(key, [])
        pos = ctx.cnt.get(key, 0)
        ctx.cnt[key] = pos + 1
        if pos >= len(q):
            raise E.ReplayMismatch("no recorded model")
        out, rest = q[pos]
        for s in out:
            for i, r in enumerate(A[s]):
                if not any(row_matches(c, xs, r, b[i]) for c in model._constrs):
                    raise E.ReplayMismatch("recorded scenario not enforced")
        if max(rest, default=-1) >= len(model._constrs):
            raise E.ReplayMismatch("model differs")
    return out, [model._constrs[k] for k in rest]


def box(x, cont):
    """Spec: x admissible for the instance."""
    if cont:
        return zand([zand(v >= 0, v <= 1) for v in x])
    return zand([zor(v == 0, v == 1) if E.issym(v) and not isinstance(v, E.SymBool) else True for v in x])


def point(ctx, name, n, cont, npf=True):
    """An arbitrary admissible point: reals in [0,1] or 0/1 values (as integers-valued if-then-else terms)."""
    if cont:
        return [ctx.real("%s_%d" % (name, j), 0, 1, npf=npf) for j in range(n)]
    return [binary(ctx, "%s_%d" % (name, j)) for j in range(n)]


def binary(ctx, name):
    b = ctx.bool(name)
    if ctx.symbolic:
        return E.ite(b.e, 1.0, 0.0)
    return 1.0 if b else 0.0


def binary_points(n):
    import itertools
    return [list(map(float, p)) for p in itertools.product((0, 1), repeat=n)]
