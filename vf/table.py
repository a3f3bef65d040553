"""A number that depends on one bounded integer solver variable k, kept exactly as its table of values.

Entry k holds the value the code computes for that k in IEEE double arithmetic (or in exact integers); comparisons become
conditions on k which the solver decides, and the entries excluded by the path are dropped."""
import math
import operator

import numpy as np
import z3

from . import engine as E


class Var:
    """The solver variable and the values it may still take on this path."""

    def __init__(self, ctx, name, lo, hi):
        self.ctx = ctx
        self.sym = ctx.int(name, lo, hi)
        self.k = self.sym.e
        self.alive = list(range(lo, hi + 1))

    def cond(self, ks):
        """z3 condition: k is one of ks (as intervals)."""
        ks = sorted(ks)
        runs = []
        for k in ks:
            if runs and runs[-1][1] == k - 1:
                runs[-1][1] = k
            else:
                runs.append([k, k])
        return z3.Or([z3.And(self.k >= a, self.k <= b) for a, b in runs])

    def decide(self, yes):
        """Truth value of 'k in yes', forking if the path leaves both possible."""
        inside = [k for k in self.alive if k in yes]
        if len(inside) == len(self.alive):
            return True
        if not inside:
            return False
        v = self.ctx.fork(self.cond(inside))
        keep = set(inside)
        self.alive = [k for k in self.alive if (k in keep) == v]
        return v

    def table(self, f):
        return Tab(self, {k: f(k) for k in self.alive})


def _lift(f, rev=False):
    def g(self, o):
        if isinstance(o, np.ndarray):
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                out[i] = g(self, o[i])
            return out
        if E.issym(o) or isinstance(o, (str, list, tuple, dict)) or o is None:
            return NotImplemented
        r = {}
        for k in self.var.alive:
            a = self.t[k]
            b = o.t[k] if isinstance(o, Tab) else o
            r[k] = f(b, a) if rev else f(a, b)
        return Tab(self.var, r)
    return g


class Tab:
    """Function table over var.alive.  Values are numbers or booleans."""

    def __init__(self, var, t):
        self.var, self.t = var, t

    def _map(self, f):
        return Tab(self.var, {k: f(self.t[k]) for k in self.var.alive})

    __add__, __radd__ = _lift(operator.add), _lift(operator.add, True)
    __sub__, __rsub__ = _lift(operator.sub), _lift(operator.sub, True)
    __mul__, __rmul__ = _lift(operator.mul), _lift(operator.mul, True)
    __truediv__, __rtruediv__ = _lift(operator.truediv), _lift(operator.truediv, True)
    __floordiv__, __rfloordiv__ = _lift(operator.floordiv), _lift(operator.floordiv, True)
    __mod__, __rmod__ = _lift(operator.mod), _lift(operator.mod, True)
    __pow__ = _lift(operator.pow)
    __lt__, __le__, __gt__, __ge__ = (_lift(getattr(operator, n)) for n in ("lt", "le", "gt", "ge"))
    __eq__, __ne__ = _lift(operator.eq), _lift(operator.ne)
    __and__, __rand__ = _lift(operator.and_), _lift(operator.and_, True)
    __or__, __ror__ = _lift(operator.or_), _lift(operator.or_, True)

    def __hash__(self):
        raise E.Unsupported("hash of a tabulated number")

    def __neg__(self):
        return self._map(operator.neg)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._map(abs)

    def __floor__(self):
        return self._map(math.floor)

    def __ceil__(self):
        return self._map(math.ceil)

    def __trunc__(self):
        return self._map(math.trunc)

    def __round__(self, nd=None):
        return self._map(lambda v: round(v) if nd is None else round(v, nd))

    def floor(self):
        return self._map(np.floor)

    def ceil(self):
        return self._map(np.ceil)

    def rint(self):
        return self._map(np.rint)

    def astype(self, tp, **k):
        return self._map(lambda v: np.dtype(tp).type(v))

    def item(self):
        return self

    def is_integer(self):
        return self._map(lambda v: float(v).is_integer())

    def __bool__(self):
        return self.var.decide({k for k in self.var.alive if self.t[k]})

    def value(self):
        """Concrete value on this path, forking over the different values."""
        while True:
            vals = {}
            for k in self.var.alive:
                vals.setdefault(self.t[k], []).append(k)
            if len(vals) == 1:
                return next(iter(vals))
            v, ks = min(vals.items(), key=lambda p: p[1][0])
            if self.var.decide(set(ks)):
                return v

    def __int__(self):
        return int(self._map(int).value())

    def __index__(self):
        return operator.index(self.value())

    def __float__(self):
        return float(self.value())

    def __format__(self, spec):
        return format(self.value(), spec)

    def __array_ufunc__(self, uf, method, *args, out=None, **kw):
        if method != "__call__" or out is not None or uf.nout != 1:
            raise E.Unsupported("numpy operation on a tabulated number")
        arr = [a for a in args if isinstance(a, np.ndarray) and a.shape != ()]
        if arr:
            if len(args) != 2:
                raise E.Unsupported("numpy operation on a tabulated number")
            a, b = args
            shape = arr[0].shape
            res = np.empty(shape, dtype=object)
            for i in np.ndindex(shape):
                res[i] = self.__array_ufunc__(uf, method, *[x[i] if isinstance(x, np.ndarray) and x.shape != () else x for x in args])
            return res
        r = {}
        for k in self.var.alive:
            r[k] = uf(*[a.t[k] if isinstance(a, Tab) else a for a in args], **kw)
        return Tab(self.var, r)
