"""Stand-in for gurobipy: records models exactly; optimize() asks the harness's oracle for an outcome."""
import math
import types

import numpy as np
import z3

from . import engine as E
from .engine import SymNum, SymBool, is_num, issym

INFINITY = 1e100


class GurobiError(Exception):
    def __init__(self, msg="", errno=10003):
        super().__init__(msg)
        self.message = msg
        self.errno = errno


class _Names:
    def __init__(self, names=None):
        self._n = names or {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return n


class _Callback:
    POLLING, PRESOLVE, SIMPLEX, MIP, MIPSOL, MIPNODE, MESSAGE, BARRIER = 0, 1, 2, 3, 4, 5, 6, 7
    MIP_OBJBST, MIP_OBJBND, MIP_NODCNT, MIP_SOLCNT = "MIP_OBJBST", "MIP_OBJBND", "MIP_NODCNT", "MIP_SOLCNT"
    MIPSOL_OBJ, MIPSOL_OBJBST, MIPSOL_OBJBND = "MIPSOL_OBJ", "MIPSOL_OBJBST", "MIPSOL_OBJBND"
    MIPSOL_NODCNT = "MIPSOL_NODCNT"
    MIPNODE_OBJBST, MIPNODE_OBJBND, MIPNODE_STATUS = "MIPNODE_OBJBST", "MIPNODE_OBJBND", "MIPNODE_STATUS"
    RUNTIME = "RUNTIME"


class _Status:
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF = 1, 2, 3, 4, 5, 6
    ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL = 7, 8, 9, 10, 11, 12, 13


class GRB:
    CONTINUOUS, BINARY, INTEGER = "C", "B", "I"
    MAXIMIZE, MINIMIZE = -1, 1
    LESS_EQUAL, GREATER_EQUAL, EQUAL = "<", ">", "="
    INFINITY = INFINITY
    Param = _Names()
    param = Param
    Attr = _Names()
    attr = Attr
    Callback = _Callback
    callback = Callback
    Status = _Status
    status = _Status
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF = 1, 2, 3, 4, 5, 6
    ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL = 7, 8, 9, 10, 11, 12, 13


def _isnum(v):
    return is_num(v) or isinstance(v, (SymNum, SymBool))


def _addn(a, b):
    return a + b


class _Expr:
    """Mixin: arithmetic of variables and linear expressions."""
    __array_ufunc__ = None
    __array_priority__ = 10000

    def _le(self):
        raise NotImplementedError

    def __add__(self, o):
        r = _lin(self).copy()
        return r._iadd(o, 1)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        return _lin(self).copy()._iadd(o, -1)

    def __rsub__(self, o):
        return (_lin(self) * -1.0)._iadd(o, 1)

    def __neg__(self):
        return _lin(self) * -1.0

    def __pos__(self):
        return _lin(self).copy()

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.shape == ():
            o = o[()]
        if isinstance(o, np.ndarray):
            return _arr([self * v for v in o])
        if not _isnum(o):
            if isinstance(o, LinExpr) and not o.terms:
                o = o.const
            else:
                raise GurobiError("quadratic expressions are not supported here")
        l = _lin(self)
        r = LinExpr()
        for i, (v, c) in l.terms.items():
            r.terms[i] = (v, c * o)
        r.const = l.const * o
        return r

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        l = _lin(self)
        r = LinExpr()
        for i, (v, c) in l.terms.items():
            r.terms[i] = (v, c / o)
        r.const = l.const / o
        return r

    def __le__(self, o):
        return TempConstr(self, "<", o)

    def __ge__(self, o):
        return TempConstr(self, ">", o)

    def __eq__(self, o):
        return TempConstr(self, "=", o)

    def __lt__(self, o):
        raise GurobiError("strict inequalities are not allowed")
    __gt__ = __lt__


def _arr(lst):
    a = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        a[i] = v
    return a


def _lin(e):
    if isinstance(e, LinExpr):
        return e
    if isinstance(e, Var):
        r = LinExpr()
        r.terms[e._id] = (e, 1.0)
        return r
    if isinstance(e, np.ndarray) and e.shape == ():
        e = e[()]
    if _isnum(e):
        r = LinExpr()
        r.const = e
        return r
    raise GurobiError("unsupported operand in expression: %r" % type(e))


class LinExpr(_Expr):
    def __init__(self, arg1=0.0, arg2=None):
        self.terms = {}
        self.const = 0.0
        if arg2 is not None:
            for c, v in zip(arg1, arg2):
                self._addterm(v, c)
        elif isinstance(arg1, (Var, LinExpr)):
            self._iadd(arg1, 1)
        elif isinstance(arg1, list):
            for c, v in arg1:
                self._addterm(v, c)
        else:
            self.const = arg1

    def copy(self):
        r = LinExpr()
        r.terms = dict(self.terms)
        r.const = self.const
        return r

    def _addterm(self, v, c):
        if v._id in self.terms:
            self.terms[v._id] = (v, self.terms[v._id][1] + c)
        else:
            self.terms[v._id] = (v, c)

    def _iadd(self, o, s):
        o = _lin(o)
        for v, c in list(o.terms.values()):
            self._addterm(v, c if s == 1 else -c)
        self.const = self.const + o.const if s == 1 else self.const - o.const
        return self

    def __iadd__(self, o):
        return self._iadd(o, 1)

    def __isub__(self, o):
        return self._iadd(o, -1)

    def __imul__(self, o):
        r = self * o
        self.terms, self.const = r.terms, r.const
        return self

    def add(self, e, mult=1.0):
        self._iadd(_lin(e) * mult, 1)

    def addTerms(self, c, v):
        if isinstance(v, Var):
            self._addterm(v, c)
        else:
            for a, b in zip(c, v):
                self._addterm(b, a)

    def addConstant(self, c):
        self.const = self.const + c

    def clear(self):
        self.terms, self.const = {}, 0.0

    def size(self):
        return len(self.terms)

    def getVar(self, i):
        return list(self.terms.values())[i][0]

    def getCoeff(self, i):
        return list(self.terms.values())[i][1]

    def getConstant(self):
        return self.const

    def getValue(self):
        r = self.const
        for v, c in self.terms.values():
            r = r + c * v.X
        return r

    __hash__ = None

    def at(self, val):
        """Value under assignment val: variable -> number/term."""
        r = self.const
        for v, c in self.terms.values():
            r = r + mul(c, val(v))
        return r


def mul(c, x):
    """c*x where x may be a boolean-valued variable: if-then-else instead of a product."""
    if isinstance(x, SymBool):
        return E.ite(x.e, c, 0)
    if isinstance(x, z3.BoolRef):
        return E.ite(x, c, 0)
    if not issym(x) and x == 0:
        return 0
    if not issym(x) and x == 1:
        return c
    return c * x


class Var(_Expr):
    _count = [0]

    def __init__(self, model, lb, ub, vtype, name):
        Var._count[0] += 1
        self.__dict__["_id"] = Var._count[0]
        self.__dict__["model"] = model
        self.__dict__["attrs"] = {}
        self.lb, self.ub, self.vtype, self.varname = lb, ub, str(vtype), name

    def __setattr__(self, n, v):
        self.attrs[n.lower()] = v

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self.getAttr(n)

    def __hash__(self):
        return self._id

    def getAttr(self, n):
        n = n.lower()
        if n == "x":
            if self.model._values is None:
                raise GurobiError("Unable to retrieve attribute 'x'", 10005)
            return self.model._values[self._id]
        if n == "index":
            return self.model._vars.index_of(self)
        if n in self.attrs:
            return self.attrs[n]
        if n == "start":
            return INFINITY
        raise AttributeError(n)

    def setAttr(self, n, v):
        self.attrs[n.lower()] = v

    def sameAs(self, o):
        return self is o

    def __repr__(self):
        return "<Var %s>" % self.varname


class TempConstr:
    __array_ufunc__ = None

    def __init__(self, lhs, sense, rhs):
        self.expr = _lin(lhs).copy()._iadd(rhs, -1)   # expr (sense) 0
        self.sense = sense
        self.lhs, self.rhs = lhs, rhs

    def __rshift__(self, o):
        return TempIndicator(self, o)

    def __bool__(self):
        if self.sense == "=" and isinstance(self.lhs, Var) and isinstance(self.rhs, Var):
            return self.lhs is self.rhs
        raise GurobiError("Constraint has no bool value (are you trying \"lb <= expr <= ub\"?)")


class TempIndicator:
    def __init__(self, cond, constr):
        self.cond, self.constr = cond, constr


class Constr:
    kind = "lin"

    def __init__(self, model, expr, sense, name=""):
        self.__dict__["model"] = model
        self.__dict__["expr"] = expr
        self.__dict__["sense_"] = sense
        self.__dict__["attrs"] = {"constrname": name, "lazy": 0}
        self.__dict__["removed"] = False

    def __setattr__(self, n, v):
        n = n.lower()
        self.attrs[n] = v
        if n == "rhs":
            self.expr.const = -v
        if n == "sense":
            self.__dict__["sense_"] = v

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self.getAttr(n)

    def getAttr(self, n):
        n = n.lower()
        if n == "rhs":
            return -self.expr.const
        if n == "sense":
            return self.sense_
        if n in self.attrs:
            return self.attrs[n]
        raise AttributeError(n)

    def setAttr(self, n, v):
        setattr(self, n, v)

    def cond(self, val):
        """z3 formula / bool: the constraint under an assignment."""
        return rel(self.expr.at(val), self.sense_)


class GenConstr(Constr):
    kind = "ind"

    def __init__(self, model, var, bval, expr, sense, name=""):
        super().__init__(model, expr, sense, name)
        self.__dict__["var"] = var
        self.__dict__["bval"] = bval

    def cond(self, val):
        b = val(self.var)
        if issym(b) or isinstance(b, z3.ExprRef):
            b = E.zb(b)
        else:
            b = z3.BoolVal(bool(round(b)))
        on = b if self.bval else z3.Not(b)
        return z3.Implies(on, rel(self.expr.at(val), self.sense_))


def rel(e, sense, tol=1e-9):
    if issym(e):
        return E.zb(e <= 0 if sense == "<" else e >= 0 if sense == ">" else e == 0)
    e = float(e)
    tol = 1e-9
    return z3.BoolVal(bool(e <= tol if sense == "<" else e >= -tol if sense == ">" else abs(e) <= tol))


class tupledict(dict):
    def select(self, *pat):
        return [v for k, v in self.items() if self._m(k, pat)]

    @staticmethod
    def _m(k, pat):
        k = k if isinstance(k, tuple) else (k,)
        return all(p == "*" or p == x for p, x in zip(pat, k))

    def sum(self, *pat):
        return quicksum(self.select(*pat) if pat else self.values())

    def prod(self, coeff, *pat):
        return quicksum(coeff[k] * v for k, v in self.items() if k in coeff)


class tuplelist(list):
    pass


def multidict(d):
    raise GurobiError("multidict is not supported here")


def quicksum(it):
    r = LinExpr()
    for e in it:
        if isinstance(e, np.ndarray) and e.dtype == object:
            for x in e.reshape(-1):
                r._iadd(x, 1)
        else:
            r._iadd(e, 1)
    return r


def max_(*a, **k):
    raise GurobiError("general max constraints are not supported here")


class _Params:
    def __init__(self, model):
        self.__dict__["_m"] = model

    def __setattr__(self, n, v):
        self._m._setparam(n, v)

    def __getattr__(self, n):
        return self._m._params.get(n.lower())


class Env:
    def __init__(self, *a, **k):
        self._params = {}
        self.params = self

    def setParam(self, n, v):
        pass

    def start(self):
        pass

    def dispose(self):
        pass

    close = dispose

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Model:
    oracle = None      # set by the harness: called as oracle(model, callback)
    created = []

    def __init__(self, name="", env=None):
        d = self.__dict__
        d["_name"] = name
        d["_vars"] = []
        d["_constrs"] = []
        d["_objexpr"] = LinExpr()
        d["_sense"] = 1
        d["_params"] = {}
        d["_values"] = None
        d["_status"] = 1
        d["_objval"] = None
        d["_objbound"] = None
        d["_solves"] = 0
        d["_attrs"] = {}
        d["Params"] = _Params(self)
        d["params"] = d["Params"]
        Model.created.append(self)

    # -- building
    @staticmethod
    def _item(v, i, key):
        if isinstance(v, (list, tuple, np.ndarray)):
            return v[i]
        if isinstance(v, dict):
            return v[key]
        return v

    def addVar(self, lb=0.0, ub=INFINITY, obj=0.0, vtype="C", name="", column=None):
        v = Var(self, lb, ub, vtype, name)
        self._vars.append(v)
        if not (not issym(obj) and obj == 0.0):
            self._objexpr._addterm(v, obj)
        return v

    def addVars(self, *indices, lb=0.0, ub=INFINITY, obj=0.0, vtype="C", name=""):
        if len(indices) == 1:
            i = indices[0]
            keys = list(range(i)) if isinstance(i, (int, np.integer)) else list(i)
        else:
            import itertools
            keys = list(itertools.product(*[range(i) if isinstance(i, (int, np.integer)) else i for i in indices]))
        r = tupledict()
        for n, k in enumerate(keys):
            r[k] = self.addVar(self._item(lb, n, k), self._item(ub, n, k), self._item(obj, n, k),
                               self._item(vtype, n, k), "%s[%s]" % (name, k))
        return r

    def addConstr(self, c, name=""):
        if isinstance(c, TempIndicator):
            v, b = self._binval(c.cond)
            g = GenConstr(self, v, b, c.constr.expr, c.constr.sense, name)
            self._constrs.append(g)
            return g
        if isinstance(c, (bool, np.bool_)):
            if c:
                c = TempConstr(0.0, "=", 0.0)
            else:
                raise GurobiError("constraint is the constant False")
        if isinstance(c, SymBool):
            raise GurobiError("constraint without variables")
        if not isinstance(c, TempConstr):
            raise GurobiError("not a constraint: %r" % (c,))
        k = Constr(self, c.expr, c.sense, name)
        self._constrs.append(k)
        return k

    def addLConstr(self, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, TempConstr):
            return self.addConstr(lhs, name)
        return self.addConstr(TempConstr(lhs, {"<=": "<", ">=": ">", "==": "="}.get(sense, sense), rhs), name)

    def addConstrs(self, gen, name=""):
        fr = gen.gi_frame
        r = tupledict()
        # keys: the loop variables of the generator, as gurobipy does
        names = None
        for n, c in enumerate(gen):
            loc = {k: v for k, v in gen.gi_frame.f_locals.items() if k != ".0"} if gen.gi_frame else {}
            names = names or [k for k in gen.gi_code.co_varnames if k != ".0" and k in loc]
            key = tuple(loc[k] for k in names)
            r[key[0] if len(key) == 1 else key] = self.addConstr(c, name)
        return r

    @staticmethod
    def _binval(t):
        if t.sense != "=" or len(t.expr.terms) != 1:
            raise GurobiError("invalid indicator condition")
        (v, c), = t.expr.terms.values()
        val = -t.expr.const / c
        return v, bool(val == 1)

    def addGenConstrIndicator(self, binvar, binval, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, TempConstr):
            t = lhs
        else:
            t = TempConstr(lhs, {"<=": "<", ">=": ">", "==": "="}.get(sense, sense), rhs)
        g = GenConstr(self, binvar, bool(binval), t.expr, t.sense, name)
        self._constrs.append(g)
        return g

    def setObjective(self, expr, sense=None):
        self.__dict__["_objexpr"] = _lin(expr).copy()
        if sense is not None:
            self.__dict__["_sense"] = sense

    def getObjective(self):
        return self._objexpr

    def remove(self, items):
        if isinstance(items, dict):
            items = list(items.values())
        if isinstance(items, (list, tuple)):
            for i in items:
                self.remove(i)
            return
        if isinstance(items, Constr):
            if items.removed:
                raise GurobiError("constraint already removed")
            items.__dict__["removed"] = True
            self._constrs[:] = [c for c in self._constrs if c is not items]
        elif isinstance(items, Var):
            self._vars[:] = [v for v in self._vars if v is not items]
        else:
            raise GurobiError("cannot remove")

    def update(self):
        pass

    def reset(self, *a):
        self.__dict__["_values"] = None

    def dispose(self):
        pass

    close = dispose

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, f):
        pass

    def chgCoeff(self, constr, var, c):
        constr.expr.terms[var._id] = (var, c)

    def getVars(self):
        return list(self._vars)

    def getConstrs(self):
        return [c for c in self._constrs if c.kind == "lin"]

    def getVarByName(self, n):
        for v in self._vars:
            if v.varname == n:
                return v
        return None

    def _setparam(self, n, v):
        if not issym(v) and isinstance(v, (int, float)) and n.lower() == "timelimit" and v < 0:
            raise GurobiError("Unable to set parameter 'TimeLimit' to value %s (minimum is 0)" % v, 10008)
        self._params[n.lower()] = v

    def setParam(self, n, v):
        self._setparam(n, v)

    # -- solving
    def optimize(self, callback=None):
        self.__dict__["_solves"] += 1
        self.__dict__["_cb"] = callback
        self.__dict__["_values"] = None
        Model.oracle(self, callback)

    def cbGet(self, what):
        return self._cbdata[what]

    def terminate(self):
        pass

    def getAttr(self, n, items=None):
        if items is not None:
            if isinstance(items, dict):
                return tupledict((k, v.getAttr(n)) for k, v in items.items())
            return [v.getAttr(n) for v in items]
        m = n.lower()
        if m == "status":
            return self._status
        if m == "objval":
            if self._objval is None:
                raise AttributeError("Unable to retrieve attribute 'ObjVal'")
            return self._objval
        if m == "objbound":
            if self._objbound is None:
                raise AttributeError("Unable to retrieve attribute 'ObjBound'")
            return self._objbound
        if m == "solcount":
            return 0 if self._values is None else 1
        if m == "numvars":
            return len(self._vars)
        if m == "numconstrs":
            return len(self.getConstrs())
        if m == "numgenconstrs":
            return len(self._constrs) - len(self.getConstrs())
        if m == "modelname":
            return self._name
        if m == "modelsense":
            return self._sense
        if m == "mipgap":
            return 0.0
        if m == "runtime":
            return 0.0
        if m == "nodecount":
            return 0.0
        if m == "x":
            return [v.X for v in self._vars]
        raise AttributeError(n)

    def setAttr(self, n, v, *a):
        if n.lower() == "modelsense":
            self.__dict__["_sense"] = v
        else:
            self._attrs[n.lower()] = v

    def __setattr__(self, n, v):
        if n.lower() == "modelsense":
            self.__dict__["_sense"] = v
        else:
            self.__dict__[n] = v

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self.getAttr(n)

    # -- semantics
    def bounds_cond(self, v, x):
        """x within v's bounds and type."""
        c = []
        lb, ub = v.lb, v.ub
        if v.vtype == "B":
            lb = 0 if (not issym(lb) and lb < 0) else lb
            ub = 1 if (not issym(ub) and ub > 1) else ub
        boolx = isinstance(x, (SymBool, z3.BoolRef))
        if boolx and not issym(lb) and lb <= 0 and not issym(ub) and ub >= 1:
            return z3.BoolVal(True)
        if boolx:
            x = E.ite(E.zb(x), 1, 0)
        if issym(lb) or lb > -1e20:
            c.append(rel(lb - x, "<"))
        if issym(ub) or ub < 1e20:
            c.append(rel(x - ub, "<"))
        if v.vtype in "BI" and not boolx:
            if issym(x):
                if v.vtype == "B":
                    c.append(E.zor(x == 0, x == 1))
                elif x.e.is_real():
                    c.append(z3.IsInt(x.e))
            else:
                c.append(z3.BoolVal(abs(x - round(x)) <= 1e-9))
        return z3.And(c) if c else z3.BoolVal(True)

    def holds(self, val, types_=True, skip=()):
        """Formula: the assignment val (Var -> value) is feasible for the recorded model."""
        c = [k.cond(val) for k in self._constrs if k not in skip]
        if types_:
            c += [self.bounds_cond(v, val(v)) for v in self._vars]
        return z3.And(c) if c else z3.BoolVal(True)

    def objective(self, val):
        return self._objexpr.at(val)

    def set_solution(self, values, objval=None, objbound=None, status=2):
        d = self.__dict__
        d["_values"] = values
        d["_objval"] = objval
        d["_objbound"] = objbound if objbound is not None else objval
        d["_status"] = status

    def set_infeasible(self, status=3):
        self.__dict__["_values"] = None
        self.__dict__["_objval"] = None
        self.__dict__["_objbound"] = None
        self.__dict__["_status"] = status


class QuadExpr(LinExpr):
    pass


def module():
    """A fresh gurobipy module object."""
    m = types.ModuleType("gurobipy")
    for n in ("GRB", "Env", "Model", "Var", "LinExpr", "QuadExpr", "tupledict", "tuplelist", "quicksum", "GurobiError",
              "multidict", "Constr", "GenConstr", "TempConstr"):
        setattr(m, n, globals()[n])
    m.max_ = max_
    m.min_ = max_
    m.__all__ = ["GRB", "Env", "Model", "Var", "LinExpr", "tupledict", "tuplelist", "quicksum", "GurobiError", "multidict"]
    m.__path__ = []
    return m
