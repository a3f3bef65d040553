"""numpy front end used while repository code runs on symbolic numbers.

Arrays holding symbolic numbers are object arrays of class SArr; numpy functions on them are computed element by element
with the engine's arithmetic.  Functions without symbolic operands go to the real numpy."""
import math
import operator
import types

import numpy as np

from . import engine as E
from .engine import SymNum, SymBool, issym, Unsupported


def has_sym(v, depth=0):
    if isinstance(v, (SymNum, SymBool)):
        return True
    if isinstance(v, SArr):
        return True
    if isinstance(v, str):
        return "\u27e6" in v      # the text of a symbolic number
    if isinstance(v, (list, tuple)) and depth < 4:
        return any(has_sym(x, depth + 1) for x in v)
    return False


def _elt(v):
    if type(v) is SymNum:
        return v if v.npf else SymNum(v.e, True)
    if type(v) is float:
        return np.float64(v)
    return v


def wrap(a):
    """Object ndarray -> SArr (elements as numpy scalars), or plain array if nothing symbolic and all booleans/ints."""
    if not isinstance(a, np.ndarray):
        return _elt(a)
    if a.dtype != object:
        return a
    flat = a.reshape(-1)
    if flat.size and all(isinstance(x, (bool, np.bool_)) for x in flat):
        return np.array(a.tolist(), dtype=bool).reshape(a.shape)
    if flat.size and all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in flat):
        return np.array(a.tolist(), dtype=np.int64).reshape(a.shape)
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1)
    for i in range(flat.size):
        of[i] = _elt(flat[i])
    return out.view(SArr)


def obj(a):
    """Anything array-like -> plain object ndarray."""
    if isinstance(a, SArr):
        return a.view(np.ndarray)
    if isinstance(a, np.ndarray):
        return a.astype(object)
    if isinstance(a, (list, tuple)):
        a = [obj(x) if isinstance(x, (list, tuple, np.ndarray)) else x for x in a]
        if a and isinstance(a[0], np.ndarray):
            shapes = {x.shape for x in a}
            if len(shapes) != 1:
                raise ValueError("setting an array element with a sequence (inhomogeneous shape)")
            out = np.empty((len(a),) + a[0].shape, dtype=object)
            for i, x in enumerate(a):
                out[i] = x
            return out
        out = np.empty(len(a), dtype=object)
        for i, x in enumerate(a):
            out[i] = x
        return out
    out = np.empty((), dtype=object)
    out[()] = a
    return out


def _bin(f):
    def g(a, b):
        a, b = np.broadcast_arrays(obj(a), obj(b))
        out = np.empty(a.shape, dtype=object)
        of, af, bf = out.reshape(-1), a.reshape(-1), b.reshape(-1)
        for i in range(of.size):
            of[i] = f(af[i], bf[i])
        return _ret(out)
    return g


def _un(f):
    def g(a):
        a = obj(a)
        out = np.empty(a.shape, dtype=object)
        of, af = out.reshape(-1), a.reshape(-1)
        for i in range(of.size):
            of[i] = f(af[i])
        return _ret(out)
    return g


def _ret(out):
    if out.shape == ():
        return _elt(out[()])
    return wrap(out)


def _np(v):
    return np.float64(v) if isinstance(v, (int, float, np.number)) and not isinstance(v, (bool, np.bool_)) else v


def _div(a, b):
    with np.errstate(all="ignore"):
        if isinstance(a, SymBool):
            a = a.num()
        if isinstance(b, SymBool):
            b = b.num()
        if isinstance(a, SymNum):
            a = SymNum(a.e, True)
        if isinstance(b, SymNum):
            b = SymNum(b.e, True)
        return _np(a) / _np(b)


def _not(a):
    if isinstance(a, SymBool):
        return ~a
    if isinstance(a, SymNum):
        return a == 0
    return not a


def _invert(a):
    if isinstance(a, SymBool):
        return ~a
    if isinstance(a, (bool, np.bool_)):
        return not a
    return ~a


def _and(a, b):
    if issym(a) or issym(b):
        return E.mkbool(E.z3.And(E.zb(a), E.zb(b)))
    return bool(a) and bool(b)


def _or(a, b):
    if issym(a) or issym(b):
        return E.mkbool(E.z3.Or(E.zb(a), E.zb(b)))
    return bool(a) or bool(b)


def _mul(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) and bool(b)
    return a * b


def _add(a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return _or(a, b)
    return a + b


def _band(a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) or isinstance(b, (bool, np.bool_, SymBool)):
        return _and(a, b)
    return a & b


def _bor(a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) or isinstance(b, (bool, np.bool_, SymBool)):
        return _or(a, b)
    return a | b


def _isclose(a, b, rtol=1e-5, atol=1e-8):
    fin = [not isinstance(v, (float, np.floating)) or math.isfinite(v) for v in (a, b)]
    if not all(fin):
        return (not issym(a)) and (not issym(b)) and a == b
    d = abs(a - b)
    return d <= atol + rtol * abs(b)


def _floor(v):
    return v.floor() if isinstance(v, SymNum) else np.floor(v)


def _ceil(v):
    return v.ceil() if isinstance(v, SymNum) else np.ceil(v)


def _sqrt(v):
    return v.sqrt() if isinstance(v, SymNum) else np.sqrt(_np(v))


def _sign(v):
    if isinstance(v, SymNum):
        return E.ite(v.e > 0, 1.0, E.ite(v.e < 0, -1.0, 0.0))
    return np.sign(v)


def _round1(v, nd=0):
    if isinstance(v, SymNum):
        return v.__round__(nd)
    if isinstance(v, SymBool):
        return v
    return np.round(v, nd)


def _finite(v):
    return True if issym(v) else bool(np.isfinite(v))


UFUNCS = {
    "add": _bin(_add), "subtract": _bin(operator.sub), "multiply": _bin(_mul), "divide": _bin(_div),
    "true_divide": _bin(_div), "floor_divide": _bin(lambda a, b: a // b), "remainder": _bin(lambda a, b: a % b),
    "power": _bin(lambda a, b: a ** b), "float_power": _bin(lambda a, b: a ** b),
    "negative": _un(lambda a: -a), "positive": _un(lambda a: a), "absolute": _un(abs), "fabs": _un(abs),
    "less": _bin(operator.lt), "less_equal": _bin(operator.le), "greater": _bin(operator.gt),
    "greater_equal": _bin(operator.ge), "equal": _bin(operator.eq), "not_equal": _bin(operator.ne),
    "logical_and": _bin(_and), "logical_or": _bin(_or), "logical_not": _un(_not),
    "logical_xor": _bin(lambda a, b: E.SymBool(E.zb(a)) ^ b if issym(a) or issym(b) else bool(a) != bool(b)),
    "bitwise_and": _bin(_band), "bitwise_or": _bin(_bor), "invert": _un(_invert),
    "maximum": _bin(E.smax2), "minimum": _bin(E.smin2), "fmax": _bin(E.smax2), "fmin": _bin(E.smin2),
    "floor": _un(_floor), "ceil": _un(_ceil), "rint": _un(lambda v: _round1(v, 0)), "sqrt": _un(_sqrt),
    "square": _un(lambda v: v * v), "sign": _un(_sign),
    "isfinite": _un(_finite), "isnan": _un(lambda v: False if issym(v) else bool(np.isnan(v))),
    "isinf": _un(lambda v: False if issym(v) else bool(np.isinf(v))),
}


def _reduce(f, a, axis=None, init=None, keepdims=False):
    a = obj(a)
    if axis is None:
        vals = list(a.reshape(-1))
        r = _fold(f, vals, init)
        return np.full((1,) * a.ndim, r, dtype=object).view(SArr) if keepdims else r
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = obj(_reduce(f, a, ax, init, keepdims))
        return _ret(a)
    axis = axis % a.ndim
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        out[idx] = _fold(f, list(m[idx]), init)
    if keepdims:
        out = np.expand_dims(out, axis)
    return _ret(out)


def _fold(f, vals, init):
    if not vals:
        if init is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return init
    r = vals[0]
    if init is not None and isinstance(r, SymBool):
        r = r.num() if f is operator.add else r
    for v in vals[1:]:
        r = f(r, v)
    return _elt(r)


def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _reduce(lambda x, y: _numb(x) + _numb(y), _numarr(a), axis, 0, keepdims)


def _numb(x):
    if isinstance(x, str):
        t = E.CTX.parse_token(x) if hasattr(E.CTX, "parse_token") else None
        return np.float64(x) if t is None else t
    return x.num() if isinstance(x, SymBool) else (int(x) if isinstance(x, (bool, np.bool_)) else x)


def _numarr(a):
    return obj(_un(_numb)(a)) if not np.isscalar(a) else a


def _prod(a, axis=None, **k):
    return _reduce(lambda x, y: _numb(x) * _numb(y), a, axis, 1)


def _mean(a, axis=None, **k):
    a = obj(a)
    n = a.size if axis is None else a.shape[axis]
    return _div_any(_sum(a, axis), n)


def _div_any(s, n):
    return UFUNCS["divide"](s, n) if isinstance(s, np.ndarray) else _div(s, n)


def _max(a, axis=None, out=None, keepdims=False, initial=None, **k):
    return _reduce(E.smax2, a, axis, initial, keepdims)


def _min(a, axis=None, out=None, keepdims=False, initial=None, **k):
    return _reduce(E.smin2, a, axis, initial, keepdims)


def _any(a, axis=None, **k):
    return _reduce(_or, _un(lambda v: E.mkbool(E.zb(v)) if issym(v) else bool(v))(a), axis, False)


def _all(a, axis=None, **k):
    return _reduce(_and, _un(lambda v: E.mkbool(E.zb(v)) if issym(v) else bool(v))(a), axis, True)


def _order(vals):
    """Stable insertion order by forking comparisons (numpy sorts up to 16 elements by insertion)."""
    idx = []
    for i, v in enumerate(vals):
        j = len(idx)
        while j > 0 and bool(v < vals[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def _argsort(a, axis=-1, **k):
    a = obj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape, dtype=np.int64)
    for ix in np.ndindex(*m.shape[:-1]):
        vals = list(m[ix])
        o = _order(vals)
        if E.CTX is not None and getattr(E.CTX, "any_tie_order", False):
            o = _tie_break(o, vals)
        out[ix] = o
    return np.moveaxis(out, -1, axis)


def _tie_break(o, vals):
    """numpy does not promise the order of equal elements: let the environment exchange neighbours that are equal."""
    o = list(o)
    for i in range(len(o) - 1):
        if E.CTX.fork(E.zb(vals[o[i]] == vals[o[i + 1]])) and E.CTX.choice(2, "tie"):
            o[i], o[i + 1] = o[i + 1], o[i]
    return o


def _sort(a, axis=-1, **k):
    a = obj(a).copy()
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    m = np.moveaxis(a, axis, -1)
    for ix in np.ndindex(*m.shape[:-1]):
        vals = E.ssort(list(m[ix]))
        for i, v in enumerate(vals):
            m[ix + (i,)] = v
    return wrap(a)


def _argext(cmp):
    def g(a, axis=None, **k):
        a = obj(a)
        if axis is None:
            return np.int64(_argext1(list(a.reshape(-1)), cmp))
        m = np.moveaxis(a, axis, -1)
        out = np.empty(m.shape[:-1], dtype=np.int64)
        for ix in np.ndindex(*m.shape[:-1]):
            out[ix] = _argext1(list(m[ix]), cmp)
        return out
    return g


def _argext1(vals, cmp):
    if not vals:
        raise ValueError("attempt to get argmax of an empty sequence")
    b = 0
    for i in range(1, len(vals)):
        if bool(cmp(vals[i], vals[b])):
            b = i
    return b


def _where(c, *xy):
    if not xy:
        c = obj(c)
        m = np.array([bool(v) for v in c.reshape(-1)], dtype=bool).reshape(c.shape)
        return np.nonzero(m)
    x, y = xy
    c, x, y = np.broadcast_arrays(obj(c), obj(x), obj(y))
    out = np.empty(c.shape, dtype=object)
    of, cf, xf, yf = (t.reshape(-1) for t in (out, c, x, y))
    for i in range(of.size):
        of[i] = E.ite(E.zb(cf[i]), xf[i], yf[i]) if issym(cf[i]) else (xf[i] if cf[i] else yf[i])
    return _ret(out)


def _dot(a, b, out=None):
    a, b = obj(a), obj(b)
    if a.shape == () or b.shape == ():
        return UFUNCS["multiply"](a, b)
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError("shapes not aligned")
        return _reduce(operator.add, np.asarray(obj(UFUNCS["multiply"](a, b))), -1, 0)
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("shapes not aligned")
    o = np.empty(a.shape[:-1] + b.shape[:-2] + (b.shape[-1],), dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        for j in np.ndindex(*b.shape[:-2]):
            for k in range(b.shape[-1]):
                col = b[j + (slice(None), k)]
                o[i + j + (k,)] = _fold(operator.add, [p * q for p, q in zip(a[i], col)], 0)
    return _ret(o)


def _matmul(a, b, **k):
    a, b = obj(a), obj(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return _dot(a, b)
    if b.ndim == 1:
        return _dot(a, b)
    raise Unsupported("matmul of stacked matrices")


def _norm(x, ord=None, axis=None, keepdims=False):
    x = obj(x)
    if ord not in (None, 2, "fro"):
        if ord == 1:
            return _sum(UFUNCS["absolute"](x), axis)
        if ord in (np.inf, float("inf")):
            return _max(UFUNCS["absolute"](x), axis)
        raise Unsupported("norm order")
    if axis is None:
        vals = list(x.reshape(-1))
        return norm_of(vals)
    m = np.moveaxis(x, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        out[ix] = norm_of(list(m[ix]))
    return _ret(out)


def norm_of(vals):
    """Euclidean norm: exact in the one-dimensional case, else a nonnegative term that is zero exactly for the zero vector."""
    if not any(issym(v) for v in vals):
        return np.linalg.norm([float(v) for v in vals])
    nz = [v for v in vals if issym(v) or v != 0]
    if len(nz) == 1:
        return _elt(abs(nz[0]))
    return E.CTX.norm(nz)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if a is None or b is None:
        raise TypeError("unsupported operand: None")
    return _all(_bin(lambda x, y: _isclose(x, y, rtol, atol))(a, b))


def _array_equal(a, b, **k):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return _all(UFUNCS["equal"](a, b))


def _unique(a, **k):
    vals = _sort(obj(a).reshape(-1))
    if k:
        raise Unsupported("unique with options")
    out = []
    for v in list(vals):
        if not out or bool(v != out[-1]):
            out.append(v)
    return wrap(obj(out))


def _cumsum(a, axis=None, **k):
    a = obj(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    m = np.moveaxis(a.copy(), axis, -1)
    for ix in np.ndindex(*m.shape[:-1]):
        t = 0
        for i in range(m.shape[-1]):
            t = t + m[ix + (i,)]
            m[ix + (i,)] = t
    return wrap(np.moveaxis(m, -1, axis))


def _round(a, decimals=0, out=None):
    r = _un(lambda v: _round1(v, decimals))(a)
    return r


def _clip(a, a_min=None, a_max=None, **k):
    lo = k.get("min", a_min)
    hi = k.get("max", a_max)
    r = a
    if lo is not None:
        r = UFUNCS["maximum"](r, lo)
    if hi is not None:
        r = UFUNCS["minimum"](r, hi)
    return r


def _nonzero(a):
    return _where(a)


def _isin(a, b, **k):
    b = list(obj(b).reshape(-1))
    return _un(lambda v: any(bool(v == w) for w in b))(a)


def _median(a, axis=None, **k):
    if axis is not None:
        raise Unsupported("median with axis")
    v = list(obj(_sort(obj(a).reshape(-1))))
    n = len(v)
    return v[n // 2] if n % 2 else _div(v[n // 2 - 1] + v[n // 2], 2)


def _partition(a, kth, axis=-1, **k):
    return _sort(a, axis)


def _diff(a, n=1, axis=-1, **k):
    a = obj(a)
    return UFUNCS["subtract"](np.take(a, range(1, a.shape[axis]), axis), np.take(a, range(0, a.shape[axis] - 1), axis))


def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return _mean(a, axis)
    return _div_any(_sum(UFUNCS["multiply"](a, weights), axis), _sum(weights))


FUNCS = {
    "sum": _sum, "prod": _prod, "mean": _mean, "max": _max, "amax": _max, "min": _min, "amin": _min, "any": _any,
    "all": _all, "argsort": _argsort, "sort": _sort, "argmax": _argext(operator.gt), "argmin": _argext(operator.lt),
    "where": _where, "dot": _dot, "vdot": _dot, "inner": _dot, "matmul": _matmul, "allclose": _allclose,
    "isclose": lambda a, b, rtol=1e-5, atol=1e-8, **k: _bin(lambda x, y: _isclose(x, y, rtol, atol))(a, b),
    "array_equal": _array_equal, "unique": _unique, "cumsum": _cumsum, "round": _round, "around": _round, "round_": _round,
    "clip": _clip, "nonzero": _nonzero, "flatnonzero": lambda a: _where(obj(a).reshape(-1))[0],
    "argwhere": lambda a: np.argwhere(np.array([bool(v) for v in obj(a).reshape(-1)]).reshape(obj(a).shape)),
    "count_nonzero": lambda a, axis=None, **k: _sum(_un(lambda v: E.mkbool(E.zb(v)) if issym(v) else bool(v))(a), axis),
    "isin": _isin, "in1d": _isin, "median": _median, "partition": _partition, "diff": _diff, "average": _average,
    "nanmax": _max, "nanmin": _min, "nansum": _sum,
    "outer": lambda a, b: UFUNCS["multiply"](obj(a).reshape(-1, 1), obj(b).reshape(1, -1)),
    "array_split": None, "abs": UFUNCS["absolute"],
    "ptp": lambda a, axis=None: UFUNCS["subtract"](_max(a, axis), _min(a, axis)),
}
# functions that only move elements around: real numpy on object arrays
STRUCT = set("""concatenate stack vstack hstack dstack column_stack append insert delete reshape ravel transpose moveaxis
broadcast_to broadcast_arrays take tile repeat flip flipud fliplr squeeze expand_dims copy roll swapaxes atleast_1d
atleast_2d split array_split hsplit vsplit diag compress choose size ndim shape take_along_axis rot90 extract""".split())


def _plain(v):
    if isinstance(v, SArr):
        return v.view(np.ndarray)
    if isinstance(v, list):
        return [_plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(_plain(x) for x in v)
    return v


def _rewrap(r):
    if isinstance(r, np.ndarray):
        return wrap(r)
    if isinstance(r, (list, tuple)):
        return type(r)(_rewrap(x) for x in r)
    return r


def call(name, fn, args, kw):
    if name in STRUCT:
        a = [_plain(x) for x in args]
        if name in ("append", "insert", "concatenate", "stack", "vstack", "hstack") and has_sym(list(args)):
            a = [obj(x) if isinstance(x, (list, np.ndarray)) and name in ("append", "insert") and i != (1 if name == "insert" else -1)
                 else x for i, x in enumerate(a)]
            if name in ("concatenate", "stack", "vstack", "hstack"):
                a[0] = [obj(x) for x in a[0]]
        return _rewrap(fn(*a, **{k: _plain(v) for k, v in kw.items()}))
    f = FUNCS.get(name) or UFUNCS.get(name)
    if f is None:
        raise Unsupported("numpy." + name + " on symbolic values")
    kw.pop("where", None) if kw.get("where", None) is None else None
    out = kw.pop("out", None)
    r = f(*args, **kw)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        o[...] = r
        return o
    return r


class SArr(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        if method == "__call__":
            if name == "matmul":
                return _matmul(*inputs)
            if name not in UFUNCS:
                raise Unsupported("ufunc " + name)
            out = kw.pop("out", None)
            kw.pop("dtype", None)
            kw.pop("casting", None)
            if kw:
                raise Unsupported("ufunc options " + repr(list(kw)))
            r = UFUNCS[name](*inputs)
            if out is not None:
                o = out[0]
                if o.dtype != object:
                    raise TypeError("cannot store symbolic values in a plain array")
                o.view(np.ndarray)[...] = r if not isinstance(r, np.ndarray) else r.astype(object)
                return o
            return r
        if method == "reduce":
            red = {"add": _sum, "multiply": _prod, "maximum": _max, "minimum": _min, "logical_and": _all,
                   "logical_or": _any}
            if name in red:
                return red[name](inputs[0], axis=kw.get("axis", 0))
        if method == "accumulate" and name == "add":
            return _cumsum(inputs[0], axis=kw.get("axis", 0))
        if method == "outer":
            a, b = obj(inputs[0]), obj(inputs[1])
            return UFUNCS[name](a.reshape(a.shape + (1,) * b.ndim), b)
        raise Unsupported("ufunc method %s.%s" % (name, method))

    def _inplace(self, r):
        if self.dtype != object:
            raise TypeError("cannot store symbolic values in a plain array")
        self.view(np.ndarray)[...] = r.view(np.ndarray).astype(object) if isinstance(r, np.ndarray) else r
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __array_function__(self, func, types_, args, kwargs):
        if func is np.linalg.norm:
            return _norm(*args, **kwargs)
        return call(func.__name__, func, args, dict(kwargs))

    @staticmethod
    def _ix(ix):
        def one(i):
            if isinstance(i, SArr) or (isinstance(i, np.ndarray) and i.dtype == object):
                v = list(i.reshape(-1))
                if v and isinstance(v[0], (SymBool, bool, np.bool_)):
                    return np.array([bool(x) for x in v], dtype=bool).reshape(i.shape)
                return np.array([operator.index(_intish(x)) for x in v], dtype=np.int64).reshape(i.shape)
            if isinstance(i, list) and any(issym(x) for x in i):
                if isinstance(i[0], (SymBool, bool)):
                    return [bool(x) for x in i]
                return [operator.index(x) for x in i]
            if isinstance(i, SymBool):
                return bool(i)
            if isinstance(i, SymNum):
                return operator.index(i)
            return i
        return tuple(one(i) for i in ix) if isinstance(ix, tuple) else one(ix)

    def __getitem__(self, ix):
        r = np.ndarray.__getitem__(self.view(np.ndarray), self._ix(ix))
        return r.view(SArr) if isinstance(r, np.ndarray) else r

    def __setitem__(self, ix, v):
        if isinstance(v, np.ndarray):
            v = obj(v)
        elif isinstance(v, (list, tuple)):
            v = obj(v)
        else:
            v = _elt(v)
        np.ndarray.__setitem__(self.view(np.ndarray), self._ix(ix), v)

    def __contains__(self, x):
        return any(bool(v == x) for v in self.reshape(-1).view(np.ndarray))

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1).view(np.ndarray)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def sum(self, axis=None, **k):
        return _sum(self, axis, **k)

    def prod(self, axis=None, **k):
        return _prod(self, axis)

    def mean(self, axis=None, **k):
        return _mean(self, axis)

    def max(self, axis=None, **k):
        return _max(self, axis, **k)

    def min(self, axis=None, **k):
        return _min(self, axis, **k)

    def any(self, axis=None, **k):
        return _any(self, axis)

    def all(self, axis=None, **k):
        return _all(self, axis)

    def argsort(self, axis=-1, **k):
        return _argsort(self, axis)

    def argmax(self, axis=None, **k):
        return FUNCS["argmax"](self, axis)

    def argmin(self, axis=None, **k):
        return FUNCS["argmin"](self, axis)

    def sort(self, axis=-1, **k):
        self.view(np.ndarray)[...] = obj(_sort(self, axis))

    def dot(self, b):
        return _dot(self, b)

    def __matmul__(self, b):
        return _matmul(self, b)

    def __rmatmul__(self, a):
        return _matmul(a, self)

    def cumsum(self, axis=None, **k):
        return _cumsum(self, axis)

    def round(self, decimals=0, **k):
        return _round(self, decimals)

    def clip(self, *a, **k):
        return _clip(self, *a, **k)

    def nonzero(self):
        return _where(self)

    def copy(self, order="C"):
        return self.view(np.ndarray).copy().view(SArr)

    def tolist(self):
        r = self.view(np.ndarray).tolist()

        def f(x):
            if isinstance(x, list):
                return [f(y) for y in x]
            if isinstance(x, SymNum):
                return SymNum(x.e, False)
            if isinstance(x, np.generic):
                return x.item()
            return x
        return f(r)

    def astype(self, t, **k):
        t = t if not isinstance(t, type) else t.__name__
        t = str(t)
        if "int" in t:
            return _un(lambda v: _intish(v))(self)
        if "bool" in t:
            return _un(lambda v: E.mkbool(E.zb(v)) if issym(v) else bool(v))(self)
        if "float" in t or "object" in t:
            r = _un(lambda v: _numb(v))(self)
            return r if isinstance(r, SArr) else obj(r).view(SArr)
        raise Unsupported("astype " + t)

    def item(self, *a):
        v = self.view(np.ndarray).item(*a)
        return SymNum(v.e, False) if isinstance(v, SymNum) else v


def _intish(v):
    if isinstance(v, SymBool):
        return v.num()
    if isinstance(v, SymNum):
        return v if v.e.is_int() else int(v)
    return int(v)


class _Linalg(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.linalg")

    def norm(self, x, *a, **k):
        if has_sym(x):
            return _norm(x, *a, **k)
        if isinstance(x, SArr):
            return np.linalg.norm(np.array(x.tolist(), dtype=float), *a, **k)
        return np.linalg.norm(x, *a, **k)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


class Numpy(types.ModuleType):
    """The module the repository sees as `numpy`."""

    def __init__(self):
        super().__init__("numpy")
        self.linalg = _Linalg()
        self.random = None
        self.__path__ = []

    @staticmethod
    def _isfloat(dtype):
        if dtype is None:
            return True
        n = dtype if isinstance(dtype, str) else getattr(dtype, "__name__", str(dtype))
        return "float" in n or "double" in n or n == "d"

    def zeros(self, shape, dtype=None, order="C", **k):
        return self._fill(shape, 0.0, dtype)

    def ones(self, shape, dtype=None, order="C", **k):
        return self._fill(shape, 1.0, dtype)

    def empty(self, shape, dtype=None, order="C", **k):
        return self._fill(shape, 0.0, dtype)

    def _fill(self, shape, v, dtype):
        if not self._isfloat(dtype):
            return np.full(shape, v).astype(_dt(dtype))
        return obj(np.full(shape, v)).view(SArr) if np.full(shape, v).shape else np.full(shape, v)

    def full(self, shape, v, dtype=None, order="C", **k):
        if dtype is None and isinstance(v, (bool, np.bool_, int, np.integer)):
            return np.full(shape, v)
        if dtype is not None and not self._isfloat(dtype) and not issym(v):
            return np.full(shape, v, dtype=_dt(dtype))
        out = np.empty(shape, dtype=object)
        if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
            out[...] = obj(v)
        else:
            for ix in np.ndindex(*out.shape):
                out[ix] = _elt(v if not isinstance(v, int) else float(v))
        return out.view(SArr)

    def zeros_like(self, a, dtype=None, **k):
        return self._like(a, 0.0, dtype)

    def ones_like(self, a, dtype=None, **k):
        return self._like(a, 1.0, dtype)

    def empty_like(self, a, dtype=None, **k):
        return self._like(a, 0.0, dtype)

    def full_like(self, a, v, dtype=None, **k):
        return self.full(np.shape(_plain(a)), v, dtype)

    def _like(self, a, v, dtype):
        b = _plain(a) if isinstance(a, np.ndarray) else obj(a)
        if dtype is None and b.dtype != object and b.dtype.kind in "iub":
            return np.full(b.shape, v).astype(b.dtype)
        return self._fill(b.shape, v, dtype)

    def array(self, a, dtype=None, copy=True, **k):
        if isinstance(a, (map, filter, zip, types.GeneratorType)):
            return np.array(a)
        if has_sym(a) or issym(a):
            r = obj(a)
            if r.shape == ():
                return r
            w = wrap(r.copy())
            if dtype is not None and isinstance(w, SArr):
                return w.astype(dtype if not callable(dtype) or isinstance(dtype, type) else dtype)
            return w
        return np.array(_plain(a), dtype=_dt(dtype)) if dtype is not None else np.array(_plain(a))

    def asarray(self, a, dtype=None, **k):
        if isinstance(a, SArr):
            return a
        if isinstance(a, np.ndarray) and dtype is None:
            return a
        return self.array(a, dtype)
    ascontiguousarray = asarray
    asanyarray = asarray

    def fromiter(self, it, dtype=None, **k):
        return self.array(list(it), dtype)

    def __getattr__(self, n):
        r = getattr(np, n)
        if isinstance(r, np.ufunc) or (callable(r) and not isinstance(r, type)):
            def f(*args, **kw):
                if has_sym(list(args)) or has_sym(list(kw.values())):
                    if isinstance(r, np.ufunc):
                        kw.pop("dtype", None)
                        out = kw.pop("out", None)
                        if n == "matmul":
                            return _matmul(*args)
                        un = n if n in UFUNCS else r.__name__      # np.abs is np.absolute
                        if un not in UFUNCS:
                            raise Unsupported("ufunc " + n)
                        if "where" in kw:
                            raise Unsupported("ufunc where")
                        x = UFUNCS[un](*args)
                        if out is not None:
                            o = out[0] if isinstance(out, tuple) else out
                            o[...] = x
                            return o
                        return x
                    kw.pop("dtype", None) if n in ("sum", "mean", "cumsum") else None
                    return call(n, r, args, kw)
                return r(*args, **kw)
            if isinstance(r, np.ufunc):
                f.reduce = r.reduce
            f.__name__ = n
            self.__dict__[n] = f
            return f
        return r


class _Float64Meta(type):
    pass


def _dt(dtype):
    """dtype argument as real numpy understands it (the float shim class stands for float)."""
    if dtype is None:
        return None
    if isinstance(dtype, type) and dtype.__name__ == "float":
        return float
    return dtype
