"""Path-exploring symbolic executor: real Python code runs on symbolic numbers, z3 decides every branch and assertion."""
import math
import time as _time
from fractions import Fraction

import numpy as np
import z3
z3.z3.Z3_DEBUG = False


class EngineStop(BaseException):
    """Control flow of the engine; deliberately not an Exception so that code under test cannot swallow it."""


class Prune(EngineStop):
    pass


class Inconclusive(EngineStop):
    pass


class Unsupported(EngineStop):
    pass


class FoundViolation(EngineStop):
    pass


class ReplayMismatch(EngineStop):
    pass


CTX = None

_ideal_cache = {}


def ideal(v):
    """A float as the exact rational it stands for (1/3, 0.1, 1e-8): floats are idealised as reals."""
    key = v
    r = _ideal_cache.get(key)
    if r is None:
        f = Fraction(v)
        g = f.limit_denominator(10 ** 6)
        if abs(f - g) <= Fraction(1, 10 ** 14) * max(1, abs(f)) and (g != 0 or f == 0):
            r = g
        else:
            r = Fraction(repr(float(v)))
        _ideal_cache[key] = r
    return r


class Memo(dict):
    """Terms already built: paths repeat the work of their prefixes. Values keep their operands alive, so that ids stay unique."""

    def put(self, k, v):
        if len(self) > 300000:
            self.clear()
        self[k] = v
        return v


_memo = Memo()
_nums = {}


def simp(e):
    k = ("s", e.get_id())
    r = _memo.get(k)
    if r is None:
        r = _memo.put(k, (z3.simplify(e), e))
    return r[0]


def is_num(v):
    return isinstance(v, (bool, int, float, Fraction, np.integer, np.floating, np.bool_))


def const_of(e):
    """Fraction of a z3 numeral, else None."""
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def z(v):
    """Anything numeric -> z3 arithmetic term."""
    if isinstance(v, SymNum):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, np.bool_)):
        return z3.IntVal(int(v))
    if isinstance(v, (int, np.integer)):
        v = int(v)
        r = _nums.get((0, v))
        if r is None:
            r = _nums[0, v] = z3.IntVal(v)
        return r
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        r = _nums.get((1, v))
        if r is None:
            if math.isinf(v) or math.isnan(v):
                raise Unsupported("infinite value in a term")
            r = _nums[1, v] = z3.RealVal(ideal(v))
        return r
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported("not a number: %r" % (type(v),))


def zb(v):
    """Anything boolean -> z3 Bool."""
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, (bool, np.bool_)):
        return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, Cond):
        return zb(v.holds)
    if isinstance(v, SymNum):
        return v.e != 0
    if isinstance(v, (int, float, np.integer, np.floating)):
        return z3.BoolVal(bool(v))
    raise Unsupported("not a boolean: %r" % (type(v),))


def zand(*a):
    a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else [y])]
    return z3.And([zb(x) for x in a]) if a else z3.BoolVal(True)


def zor(*a):
    a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else [y])]
    return z3.Or([zb(x) for x in a]) if a else z3.BoolVal(False)


def znot(a):
    return z3.Not(zb(a))


def zimp(a, b):
    return z3.Implies(zb(a), zb(b))


def _map(arr, f):
    out = np.empty(arr.shape, dtype=object)
    of, af = out.reshape(-1), np.asarray(arr).reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i])
    if isinstance(arr, np.ndarray) and type(arr) is not np.ndarray:
        out = out.view(type(arr))
    return out


class SymBool:
    __slots__ = ("e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.fork(self.e)

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            return _map(o, lambda v: self._bin(v, f))
        return mkbool(f(self.e, zb(o)))

    def __and__(self, o):
        return self._bin(o, lambda a, b: z3.And(a, b))
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: z3.Or(a, b))
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: z3.Xor(a, b))
    __rxor__ = __xor__

    def logical_not(self):
        return ~self

    def num(self):
        return mknum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __mul__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return self & o
        if isinstance(o, (str, list, tuple)):
            return o * int(self)
        return self.num() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return _map(o, lambda v: self == v)
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(self.e == zb(o))
        if o is None or not (is_num(o) or isinstance(o, SymNum)):
            return False
        return self.num() == o

    def __ne__(self, o):
        r = self == o
        if isinstance(r, np.ndarray):
            return _map(r, lambda v: ~v if isinstance(v, SymBool) else not v)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self

    def __lt__(self, o):
        return self.num() < o

    def __gt__(self, o):
        return self.num() > o

    def __le__(self, o):
        return self.num() <= o

    def __ge__(self, o):
        return self.num() >= o

    def __repr__(self):
        return "<bool>"


def mkbool(e):
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(s)


def mknum(e, npf=False):
    s = z3.simplify(e)
    c = const_of(s)
    if c is not None:
        if s.is_int():
            return np.int64(int(c)) if npf else int(c)
        f = float(c)
        return np.float64(f) if npf else f
    return SymNum(s, npf)


def _mono(e):
    """Replaces each nonlinear monomial of e by one variable (same monomial, same variable)."""
    e = z3.simplify(e, som=True, flat=True)
    return _mono_walk(e)


def _mono_walk(e):
    if z3.is_add(e):
        return z3.Sum([_mono_walk(c) for c in e.children()])
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        return z3.If(c, _mono_walk(a), _mono_walk(b))
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return -_mono_walk(e.children()[0])
    if z3.is_mul(e):
        coef = Fraction(1)
        rest = []
        todo = list(e.children())
        while todo:
            c = todo.pop(0)
            k = const_of(c)
            if k is not None:
                coef *= k
            elif z3.is_mul(c):
                todo = c.children() + todo
            else:
                rest.append(c)
        if len(rest) <= 1:
            return z3.RealVal(coef) * _mono_walk(rest[0]) if rest and not e.is_int() else e
        sums = [i for i, r in enumerate(rest) if z3.is_add(r)]
        if sums:
            i = sums[0]
            others = rest[:i] + rest[i + 1:]
            return z3.Sum([_mono_walk(z3.Product([z3.RealVal(coef), t] + others)) for t in rest[i].children()])
        ites = [i for i, r in enumerate(rest) if z3.is_app_of(r, z3.Z3_OP_ITE)]
        if ites:
            i = ites[0]
            c, a, b = rest[i].children()
            others = rest[:i] + rest[i + 1:]
            return z3.If(c, _mono(z3.RealVal(coef) * a * z3.Product(others)),
                         _mono(z3.RealVal(coef) * b * z3.Product(others)))
        return z3.RealVal(coef) * CTX.monomial(rest)
    if z3.is_app_of(e, z3.Z3_OP_POWER):
        b, k = e.children()
        k = const_of(k)
        if k is not None and k.denominator == 1 and k > 0:
            return CTX.monomial([b] * int(k))
    return e


class SymNum:
    """Symbolic int or real.  npf: stands for a numpy scalar (division by zero gives inf/nan instead of raising)."""
    __slots__ = ("e", "npf")
    __array_ufunc__ = None

    def __init__(self, e, npf=False):
        self.e = e
        self.npf = npf

    # -- helpers
    def _np(self, o):
        return self.npf or isinstance(o, np.generic) or (isinstance(o, SymNum) and o.npf)

    def _arith(self, o, f, finf=None, op=None):
        if isinstance(o, np.ndarray):
            return _map(o, lambda v: self._arith(v, f, finf, op))
        if isinstance(o, (SymNum, SymBool)) or is_num(o):
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                if math.isnan(o):
                    return float("nan")
                return finf(self, float(o))
            b, npf = z(o), self._np(o)
            if op == "*" and const_of(b) is None and const_of(self.e) is None:
                return mknum(CTX.product(self.e, b), npf)      # depends on the path's abstraction
            k = (op, self.e.get_id(), b.get_id(), npf)
            r = _memo.get(k)
            if r is None:
                r = _memo.put(k, (mknum(f(self.e, b), npf), self.e, b))
            return r[0]
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda s, i: i, "+")

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a, lambda s, i: i, "r+")

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda s, i: -i, "-")

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a, lambda s, i: i, "r-")

    def _mulinf(self, i):
        if CTX.fork(self.e > 0):
            return i
        if CTX.fork(self.e < 0):
            return -i
        return float("nan")

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * int(self)
        return self._arith(o, lambda a, b: a * b, lambda s, i: s._mulinf(i), "*")
    __rmul__ = __mul__

    def _div(self, num, den, npf):
        """num, den: z3 terms."""
        den = z3.ToReal(den) if den.is_int() else den
        num = z3.ToReal(num) if num.is_int() else num
        c = const_of(z3.simplify(den))
        zero = (c == 0) if c is not None else CTX.fork(den == 0)
        if zero:
            if not npf:
                raise ZeroDivisionError("float division by zero")
            cn = const_of(z3.simplify(num))
            if (cn > 0) if cn is not None else CTX.fork(num > 0):
                return np.float64("inf")
            if (cn < 0) if cn is not None else CTX.fork(num < 0):
                return np.float64("-inf")
            return np.float64("nan")
        return mknum(num / den if c is not None else CTX.quotient(num, den), npf)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return _map(o, lambda v: self / v)
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return 0.0 if math.isinf(o) else float("nan")
        if isinstance(o, (SymNum, SymBool)) or is_num(o):
            return self._div(self.e, z(o), self._np(o))
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return _map(o, lambda v: v / self)
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return self._mulinf(float(o))
        if isinstance(o, (SymNum, SymBool)) or is_num(o):
            return self._div(z(o), self.e, self._np(o))
        return NotImplemented

    def __floordiv__(self, o):
        if isinstance(o, SymNum) or is_num(o):
            b = z(o)
            if self.e.is_int() and b.is_int():
                if CTX.fork(b == 0):
                    raise ZeroDivisionError
                q = self.e / b
                if CTX.fork(b < 0):
                    q = (-self.e) / (-b)
                return mknum(q)
            return (self / o).__floor__()
        return NotImplemented

    def __rfloordiv__(self, o):
        return SymNum(z(o)).__floordiv__(self)

    def __mod__(self, o):
        if isinstance(o, SymNum) or is_num(o):
            return self - o * self.__floordiv__(o)
        return NotImplemented

    def __rmod__(self, o):
        return SymNum(z(o)).__mod__(self)

    def __pow__(self, k):
        if isinstance(k, (int, np.integer)) or (isinstance(k, float) and k == int(k)):
            k = int(k)
            if k == 0:
                return 1
            if k > 0:
                r = self
                for _ in range(k - 1):
                    r = r * self
                return r
        if k == 0.5:
            return self.sqrt()
        raise Unsupported("power")

    def __neg__(self):
        return mknum(-self.e, self.npf)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.e >= 0, self.e, -self.e), self.npf)

    def _cmp(self, o, f, fi, op):
        if isinstance(o, np.ndarray):
            return _map(o, lambda v: self._cmp(v, f, fi, op))
        if isinstance(o, (SymNum, SymBool)) or is_num(o):
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                return bool(fi(0.0, float(o)))
            b = z(o)
            k = (op, self.e.get_id(), b.get_id())
            r = _memo.get(k)
            if r is None:
                r = _memo.put(k, (mkbool(f(self.e, b)), self.e, b))
            return r[0]
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b, "<")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b, "<=")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b, ">")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b, ">=")

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda a, b: a != b, "!=")
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(CTX.concretize(self.e)) if self.e.is_int() else _unhash()

    def __bool__(self):
        return CTX.fork(self.e != 0)

    def __index__(self):
        if not self.e.is_int():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.concretize(self.e)

    def __int__(self):
        if self.e.is_int():
            return CTX.concretize(self.e)
        t = z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))
        return CTX.concretize(t)

    def __trunc__(self):
        return int(self)

    def __float__(self):
        raise Unsupported("float() of a symbolic value at a C boundary")

    def __floor__(self):
        return mknum(z3.ToInt(self.e)) if self.e.is_real() else self

    def __ceil__(self):
        return mknum(-z3.ToInt(-self.e)) if self.e.is_real() else self

    def floor(self):
        return mknum(z3.ToReal(z3.ToInt(self.e)), True) if self.e.is_real() else self

    def ceil(self):
        return -((-self).floor())

    def __round__(self, nd=None):
        if nd is None:
            return mknum(z3.ToInt(CTX.round_half(self.e, 0)))
        return mknum(CTX.round_half(self.e, nd), self.npf)

    def rint(self):
        return self.__round__(0)

    def round(self, decimals=0):
        return self.__round__(decimals)

    def sqrt(self):
        return CTX.sqrt(self)

    def conjugate(self):
        return self

    def item(self):
        return SymNum(self.e, False)

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        return mkbool(z3.IsInt(self.e)) if self.e.is_real() else True

    def astype(self, t, **k):
        return self

    def __format__(self, spec):
        return CTX.token(self, spec)

    def __str__(self):
        return CTX.token(self, "")

    def __repr__(self):
        return "<num>"


def _unhash():
    """All symbolic reals share one hash: sets and dictionaries then decide membership by (forking) equality.  A symbolic
    real is not found equal to a plain number stored in the same set; replays discard what this might invent."""
    return 1000003


def ite(c, a, b):
    """If-then-else without forking where possible."""
    c = zb(c) if not isinstance(c, bool) else c
    if c is True:
        return a
    if c is False:
        return b
    c = simp(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    for v in (a, b):
        if isinstance(v, (float, np.floating)) and not math.isfinite(v):
            return a if CTX.fork(c) else b
    ea, eb = z(a), z(b)
    if ea.is_int() != eb.is_int():
        ea = z3.ToReal(ea) if ea.is_int() else ea
        eb = z3.ToReal(eb) if eb.is_int() else eb
    npf = any(isinstance(v, np.generic) or (isinstance(v, SymNum) and v.npf) for v in (a, b))
    k = ("ite", c.get_id(), ea.get_id(), eb.get_id(), npf)
    r = _memo.get(k)
    if r is None:
        r = _memo.put(k, (mknum(z3.If(c, ea, eb), npf), c, ea, eb))
    return r[0]


def issym(v):
    return isinstance(v, (SymNum, SymBool))


def smax2(a, b):
    """max as Python does: b if b > a else a."""
    if not issym(a) and not issym(b):
        return b if b > a else a
    r = b > a
    return ite(r, b, a)


def smin2(a, b):
    if not issym(a) and not issym(b):
        return b if b < a else a
    r = b < a
    return ite(r, b, a)


def smax(vals):
    vals = list(vals)
    r = vals[0]
    for v in vals[1:]:
        r = smax2(r, v)
    return r


def smin(vals):
    vals = list(vals)
    r = vals[0]
    for v in vals[1:]:
        r = smin2(r, v)
    return r


def ssort(vals):
    """Sorted copy as if-then-else terms (no forks): odd-even transposition."""
    v = list(vals)
    if not any(issym(x) for x in v):
        return sorted(v)
    n = len(v)
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            v[i], v[i + 1] = smin2(v[i], v[i + 1]), smax2(v[i], v[i + 1])
    return v


# ---------------------------------------------------------------- conditions with margins
class Cond:
    """Assertion: `holds` formula and `viol(m)`: violated by at least margin m (used to find reproducible models)."""

    def __init__(self, holds, viol=None):
        self.holds = holds
        self._viol = viol

    def viol(self, m):
        return z3.Not(self.holds) if self._viol is None else self._viol(m)


class Ctx:
    """Symbolic context of one path."""
    symbolic = True

    def __init__(self, ex, prefix):
        self.ex = ex
        self.s = ex.solver
        self.prefix = prefix
        self.trace = []          # decisions taken: value
        self.decided = {}
        self.keep = []
        self.inputs = {}         # name -> z3 const
        self.choices = []
        self.cnt = {}
        self.model = None
        self.nl = ex.nl
        self.defs = []           # exact definitions of abstracted terms
        self.monos = {}
        self.factors = {}        # variable standing for a monomial -> its factors
        self.quots = {}
        self.sqrts = {}
        self.tokens = {}
        self.rounds = {}
        self.notes = []
        self.path_checks = 0
        self.conc = {}
        self.replay_extra = {}

    # -- inputs
    def fresh(self, base):
        k = self.cnt.get(base, 0)
        self.cnt[base] = k + 1
        return "%s#%d" % (base, k) if k else base

    def real(self, name, lo=None, hi=None, npf=False):
        v = z3.Real(name)
        if name not in self.inputs:
            self.inputs[name] = v
            if lo is not None:
                self.assume(v >= z(lo))
            if hi is not None:
                self.assume(v <= z(hi))
        return SymNum(v, npf)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = v
            if lo is not None:
                self.assume(v >= z(lo))
            if hi is not None:
                self.assume(v <= z(hi))
        return SymNum(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def aux(self, base):
        return z3.Real(self.fresh(base))

    # -- solver plumbing
    def _add(self, e):
        self.s.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def assume(self, cond):
        e = zb(cond)
        e = simp(e)
        if z3.is_true(e):
            return
        self._add(e)
        if z3.is_false(e):
            raise Prune()
        self._note_decided(e)

    def _note_decided(self, e):
        self.keep.append(e)
        self.decided[e.get_id()] = True
        n = simp(z3.Not(e))
        self.keep.append(n)
        self.decided[n.get_id()] = False

    def feasible(self):
        """Prunes the path if its assumptions are unsatisfiable."""
        if self.model is not None or len(self.trace) < len(self.prefix):
            return
        r = self._check()
        if r == z3.unsat:
            raise Prune()

    def _check(self, *extra):
        t = _time.time()
        r = self.s.check(*extra)
        self.ex.stats["solver_s"] += _time.time() - t
        self.ex.stats["queries"] += 1
        if r == z3.unknown:
            # second opinion from a fresh solver with all tactics
            s2 = z3.Solver()
            s2.set("timeout", self.ex.timeout_ms * 4)
            s2.add(self.s.assertions())
            s2.add(*extra)
            t = _time.time()
            r = s2.check()
            self.ex.stats["solver_s"] += _time.time() - t
            self.ex.stats["queries"] += 1
            if r == z3.unknown:
                raise Inconclusive("solver answered unknown: " + s2.reason_unknown())
            if r == z3.sat:
                self._last_model = s2.model()
            return r
        if r == z3.sat:
            self._last_model = self.s.model()
        return r

    def _have_model(self):
        if self.model is None:
            if self._check() == z3.unsat:
                raise Prune()
            self.model = self._last_model

    def fork(self, e):
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = e.get_id()
        if i in self.decided:
            return self.decided[i]
        self.ex.tick()
        ne = simp(z3.Not(e))
        idx = len(self.trace)
        if idx < len(self.prefix):
            v = self.prefix[idx]
            self.trace.append(v)
            self._add(e if v else ne)
        else:
            self._have_model()
            mv = self.model.eval(e, model_completion=True)
            if z3.is_true(mv) or z3.is_false(mv):
                v = z3.is_true(mv)
            else:
                v = self._check(e) == z3.sat
                if v:
                    self.model = self._last_model
            r = self._check(ne if v else e)
            if r == z3.sat:
                self.ex.stats["forks"] += 1
                self.ex.pending.append(tuple(self.trace) + (not v,))
            self.trace.append(v)
            self._add(e if v else ne)
        self.keep += [e, ne]
        self.decided[i] = v
        self.decided[ne.get_id()] = not v
        return v

    def choice(self, n, label="choice"):
        """Nondeterministic choice of the environment: all n alternatives are explored."""
        if n == 1:
            self.choices.append(0)
            return 0
        self.ex.tick()
        idx = len(self.trace)
        if idx < len(self.prefix):
            v = self.prefix[idx]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.ex.pending.append(tuple(self.trace) + (k,))
            self.ex.stats["forks"] += n - 1
        self.trace.append(v)
        self.choices.append(v)
        return v

    def concretize(self, e):
        """The value of an integer term, forking over all its feasible values."""
        e = simp(e)
        c = const_of(e)
        if c is not None:
            return int(c)
        i = e.get_id()
        if i in self.conc:
            return self.conc[i]
        self.keep.append(e)
        while True:
            # the candidate is part of the trace, so that re-execution picks the same one
            idx = len(self.trace)
            if idx < len(self.prefix):
                v = self.prefix[idx]
            else:
                self._have_model()
                v = int(const_of(self.model.eval(e, model_completion=True)))
            self.trace.append(v)
            if self.fork(e == v):
                self.conc[i] = v
                return v

    # -- nonlinear arithmetic
    def product(self, a, b):
        if self.nl == "nl":
            return a * b
        return _mono(a * b)

    def monomial(self, factors):
        factors = [f for g in factors for f in self.factors.get(g.get_id(), (g,))]
        ids = tuple(sorted(f.get_id() for f in factors))
        m = self.monos.get(ids)
        if m is None:
            self.keep += factors
            m = self.aux("mono")
            self.monos[ids] = m
            self.factors[m.get_id()] = tuple(factors)
            self.keep.append(m)
            self.defs.append(m == z3.Product(factors))
            if len(factors) == 2:
                p, q = factors
                if p.eq(q):
                    self._add(m >= 0)
                    self._add((m == 0) == (p == 0))
                else:
                    self._add(z3.Implies(z3.And(p >= 0, q >= 0), m >= 0))
                    self._add(z3.Implies(z3.Or(p == 0, q == 0), m == 0))
                    self._add(z3.Implies(p == 1, m == (z3.ToReal(q) if q.is_int() else q)))
                    self._add(z3.Implies(q == 1, m == (z3.ToReal(p) if p.is_int() else p)))
        return m

    def quotient(self, num, den):
        """num/den with den != 0 on this path."""
        if self.nl == "nl":
            return num / den
        num, den = simp(num), simp(den)
        key = (num.get_id(), den.get_id())
        q = self.quots.get(key)
        if q is None:
            self.keep += [num, den]
            q = self.aux("quot")
            self.quots[key] = q
            self.defs.append(q * den == num)
            # sign facts and cross-multiplied comparison with one: q*den = num abstracted
            self._add(z3.Implies(num == 0, q == 0))
            self._add(z3.Implies(z3.And(den > 0, num > 0), q > 0))
            self._add(z3.Implies(z3.And(den > 0, num < 0), q < 0))
            self._add(z3.Implies(z3.And(den < 0, num > 0), q < 0))
            self._add(z3.Implies(z3.And(den < 0, num < 0), q > 0))
            self._add(z3.Implies(den == 1, q == num))
            for t in (1,) + tuple(self.ex.quot_levels):
                t = z3.RealVal(t)
                self._add(z3.Implies(den > 0, (q <= t) == (num <= t * den)))
                self._add(z3.Implies(den > 0, (q >= t) == (num >= t * den)))
        return q

    def sqrt(self, s):
        k = s.e.get_id()
        r = self.sqrts.get(k)
        if r is None:
            self.keep.append(s.e)
            v = self.aux("sqrt")
            r = SymNum(v, True)
            self.sqrts[k] = r
            self._add(v >= 0)
            self._add((v == 0) == (s.e == 0))
            if self.nl == "nl":
                self._add(v * v == s.e)
            else:
                self.defs.append(v * v == s.e)
        return r

    def norm(self, vals):
        """Euclidean norm of terms: abstracted by its basic facts, exact in counterexamples."""
        es = [z(v) for v in vals]
        key = ("norm",) + tuple(sorted(e.get_id() for e in es))
        r = self.sqrts.get(key)
        if r is None:
            self.keep += es
            v = self.aux("norm")
            r = SymNum(v, True)
            self.sqrts[key] = r
            ab = [z3.If(e >= 0, e, -e) for e in es]
            self._add(v >= 0)
            for a in ab:
                self._add(v >= a)
            self._add(v <= z3.Sum(ab))
            self._add((v == 0) == z3.And([e == 0 for e in es]))
            self.defs.append(v * v == z3.Sum([e * e for e in es]))
        return r

    def round_half(self, e, nd):
        """round(e, nd): nearest multiple of 10^-nd (ties either way)."""
        if e.is_int() and nd >= 0:
            return e
        key = (e.get_id(), nd)
        r = self.rounds.get(key)
        if r is None:
            self.keep.append(e)
            for lvl, ids in self.ex.grid.items():
                if lvl <= nd and self._on_grid(e, ids):
                    self.rounds[key] = e
                    return e
            k = z3.Int(self.fresh("rnd"))
            unit = Fraction(10) ** nd
            r = z3.ToReal(k) / z3.RealVal(unit)
            half = z3.RealVal(1 / (2 * unit))
            self._add(z3.And(r - e <= half, e - r <= half))
            self.rounds[key] = r
        return r

    def _on_grid(self, e, names):
        return z3.is_const(e) and e.decl().name().split("#")[0].startswith(tuple(names)) if names else False

    # -- formatting: numbers printed to text keep their value through a token
    def token(self, sym, spec):
        t = "\u27e6%d\u27e7" % len(self.tokens)
        self.tokens[t] = (sym, spec)
        return t

    def parse_token(self, text):
        """float(text) for text produced by token(): value rounded as the format prescribes."""
        t = text.strip()
        neg = False
        if t not in self.tokens:
            return None
        sym, spec = self.tokens[t]
        if isinstance(sym, SymNum) and spec.endswith("f") and "." in spec:
            nd = int(spec[spec.index(".") + 1:-1])
            return mknum(self.round_half(sym.e, nd))
        return sym

    # -- assertions
    def eq(self, a, b):
        if not issym(a) and not issym(b):
            fa, fb = float(a), float(b)
            ok = (fa == fb) or abs(fa - fb) <= 1e-9 * max(1.0, abs(fa), abs(fb))
            return Cond(z3.BoolVal(bool(ok)))
        if any(isinstance(v, (float, np.floating)) and not math.isfinite(v) for v in (a, b)):
            return Cond(z3.BoolVal(False))
        x, y = z(a), z(b)
        return Cond(x == y, lambda m: z3.Or(x - y >= m, y - x >= m))

    def le(self, a, b):
        if not issym(a) and not issym(b):
            return Cond(z3.BoolVal(bool(float(a) <= float(b) + 1e-9 * max(1.0, abs(float(b)) if math.isfinite(b) else 1.0))))
        for v, isa in ((a, True), (b, False)):
            if isinstance(v, (float, np.floating)) and not math.isfinite(v):
                ok = (v < 0) if isa else (v > 0)
                return Cond(z3.BoolVal(bool(ok)))
        x, y = z(a), z(b)
        return Cond(x <= y, lambda m: x - y >= m)

    def iff(self, a, b):
        return Cond(zb(a) == zb(b))

    def check(self, cond, msg, when=None, info=None):
        """Asserts cond (under `when`) for all values following this path."""
        if not isinstance(cond, Cond):
            cond = Cond(zb(cond))
        self.path_checks += 1
        self.ex.stats["assertions"] += 1
        idx = len(self.trace)
        if idx < len(self.prefix) and not self.ex.recheck:
            return   # already discharged on the path this prefix comes from (same constraints)
        pre = zb(when) if when is not None else z3.BoolVal(True)
        goal = simp(z3.And(pre, z3.Not(cond.holds)))
        if z3.is_false(goal):
            self.ex.stats["discharged"] += 1
            return
        r = self._check(goal)
        if r == z3.unsat:
            self.ex.stats["discharged"] += 1
            return
        self._violation(msg, z3.And(pre, goal), [z3.And(pre, cond.viol(z3.RealVal(m))) for m in ("1", "1/10", "1/100")], info)

    def fail(self, msg, info=None):
        """Reached a state the property forbids, for every value on this path."""
        self.path_checks += 1
        self.ex.stats["assertions"] += 1
        self.feasible()
        if self._check() == z3.unsat:
            raise Prune()
        self._violation(msg, z3.BoolVal(True), [], info)

    def _violation(self, msg, goal, strong, info):
        models = []
        base = [goal]
        nice = self._nice()
        t0 = _time.time()
        data = self._nice(True)
        full = ([[s, nice] for s in strong] + ([[s, data] for s in strong] if data is not nice else []) + [[goal, nice], [goal, data]]
                + [[s] for s in strong] + [[goal]])
        if self.defs:
            full = [c + self.defs for c in full] + full
        for cand in full:
            if models and _time.time() - t0 > 30:
                break
            t = _time.time()
            s2 = z3.Solver()
            s2.set("timeout", 5000)
            s2.add(self.s.assertions())
            s2.add(*[c for c in cand if c is not None])
            r = s2.check()
            self.ex.stats["queries"] += 1
            self.ex.stats["solver_s"] += _time.time() - t
            if r == z3.sat:
                models.append(self.values(s2.model()))
                if len(models) >= 4:
                    break
        if not models:
            raise Inconclusive("violation model not found")
        self.ex.violations.append(dict(msg=msg, models=models, choices=list(self.choices), info=info,
                                       extra=dict(self.replay_extra)))
        raise FoundViolation()

    def _nice(self, grid_only=False):
        """Prefer short decimal inputs, so that the replay is exact in floats."""
        c = []
        for n, v in self.inputs.items():
            if v.sort() == z3.RealSort() and (not grid_only or any(self._on_grid(v, g) for g in self.ex.grid.values())):
                c.append(z3.IsInt(v * 10))
        return z3.And(c) if c and len(c) <= 60 else None

    def values(self, m):
        out = {}
        for n, v in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if z3.is_bool(x):
                out[n] = bool(z3.is_true(x))
            elif z3.is_algebraic_value(x):
                f = x.approx(20)
                out[n] = str(Fraction(f.numerator_as_long(), f.denominator_as_long()))
            else:
                c = const_of(x)
                if c is None:
                    s = simp(x)
                    c = const_of(s)
                out[n] = str(c if c is not None else x)
        return out

    def witness(self):
        """A concrete instance of this path, for replay on the real code."""
        nice, data = self._nice(), self._nice(True)
        for extra in ([[nice]] if nice is not None else []) + ([[data]] if data is not None else []) + [[]]:
            s2 = z3.Solver()
            s2.set("timeout", 2000)
            s2.add(self.s.assertions())
            s2.add(*(extra + self.defs))
            if s2.check() == z3.sat:
                return dict(models=[self.values(s2.model())], choices=list(self.choices), extra=dict(self.replay_extra))
        return None


class Explorer:
    def __init__(self, fn, nl="nl", timeout_ms=20000, quot_levels=(), grid=None, max_forks=100000):
        self.fn = fn
        self.nl = nl
        self.timeout_ms = timeout_ms
        self.quot_levels = quot_levels
        # data of instance files is taken to be given with one decimal: rounding it to one decimal changes nothing
        self.grid = {1: ("A_", "b_", "c_")} if grid is None else grid
        self.recheck = False
        self.solver = None
        self.model = None
        self.pending = []
        self.violations = []
        self.errors = []
        self.witnesses = []
        self.max_forks = max_forks
        self.stats = dict(paths=0, pruned=0, forks=0, assertions=0, discharged=0, queries=0, solver_s=0.0,
                          reached=0)
        self._ticks = 0
        self.deadline = None

    def tick(self):
        self._ticks += 1
        if self._ticks > self.max_forks:
            raise Inconclusive("path too long (more than %d branch points)" % self.max_forks)
        if self.deadline is not None and _time.time() > self.deadline + 240:
            raise Inconclusive("path too slow")

    def explore(self, prefixes=((),), max_s=None, max_paths=None, want_witness=0):
        """Explores from the given prefixes (depth first); returns unexplored prefixes when a budget ends."""
        global CTX
        self.pending = list(prefixes)
        t0 = _time.time()
        n = 0
        while self.pending:
            if (max_s is not None and _time.time() - t0 > max_s) or (max_paths is not None and n >= max_paths):
                return self.pending
            prefix = self.pending.pop()
            self._ticks = 0
            self.deadline = _time.time()
            self.solver = z3.Solver()
            self.solver.set("timeout", self.timeout_ms)
            ctx = Ctx(self, prefix)
            CTX = ctx
            n += 1
            try:
                self.fn(ctx)
                if len(ctx.trace) < len(prefix):
                    raise Inconclusive("re-execution diverged from its prefix")
                if ctx.path_checks:
                    self.stats["reached"] += 1
                self.stats["paths"] += 1
                if len(self.witnesses) < want_witness and ctx.path_checks:
                    w = ctx.witness()
                    if w:
                        self.witnesses.append(w)
            except Prune:
                self.stats["pruned"] += 1
            except FoundViolation:
                self.stats["paths"] += 1
                return []
            except (Inconclusive, Unsupported) as ex:
                import traceback
                self.errors.append("%s: %s\n%s" % (type(ex).__name__, ex, "".join(traceback.format_exc()[-2500:])))
                if len(self.errors) >= 2:
                    return []
            finally:
                CTX = None
        return []


# ---------------------------------------------------------------- concrete replay
class ConcreteCtx:
    """Same interface as Ctx, on the concrete values of a model: runs the real code with real floats."""
    symbolic = False

    def __init__(self, values, choices, extra=None):
        self.v = values
        self.choices = list(choices)
        self.pos = 0
        self.failed = []
        self.checked = 0
        self.replay_extra = extra or {}
        self.cnt = {}
        self.notes = []
        self.nl = "nl"

    def _get(self, name):
        if name not in self.v:
            raise ReplayMismatch("no value for " + name)
        return self.v[name]

    def fresh(self, base):
        k = self.cnt.get(base, 0)
        self.cnt[base] = k + 1
        return "%s#%d" % (base, k) if k else base

    def real(self, name, lo=None, hi=None, npf=False):
        f = float(Fraction(self._get(name)))
        return np.float64(f) if npf else f

    def int(self, name, lo=None, hi=None):
        return int(Fraction(self._get(name)))

    def bool(self, name):
        return bool(self._get(name))

    def choice(self, n, label="choice"):
        if self.pos >= len(self.choices):
            raise ReplayMismatch("no recorded choice left")
        c = self.choices[self.pos]
        self.pos += 1
        if c >= n:
            raise ReplayMismatch("choice out of range")
        return c

    def assume(self, cond):
        if isinstance(cond, Cond):
            cond = cond.holds
        if isinstance(cond, z3.ExprRef):
            cond = z3.is_true(simp(cond))
        if not cond:
            raise ReplayMismatch("assumption does not hold on concrete values")

    def feasible(self):
        pass

    def fork(self, e):
        e = simp(e)
        return z3.is_true(e)

    def eq(self, a, b):
        a, b = float(a), float(b)
        if a == b:
            return Cond(True)
        if not (math.isfinite(a) and math.isfinite(b)):
            return Cond(False)
        return Cond(abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)))

    def le(self, a, b):
        a, b = float(a), float(b)
        return Cond(a <= b + 1e-6 * max(1.0, abs(a) if math.isfinite(a) else 1.0))

    def iff(self, a, b):
        return Cond(self._b(a) == self._b(b))

    @staticmethod
    def _b(x):
        if isinstance(x, Cond):
            x = x.holds
        if isinstance(x, z3.ExprRef):
            return z3.is_true(simp(x))
        return bool(x)

    def check(self, cond, msg, when=None, info=None):
        self.checked += 1
        if when is not None and not self._b(when):
            return
        if not self._b(cond):
            self.failed.append(msg)
            raise FoundViolation()

    def fail(self, msg, info=None):
        self.checked += 1
        self.failed.append(msg)
        raise FoundViolation()

    def parse_token(self, text):
        return None
