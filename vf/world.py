"""Loads the repository's modules from the current working tree and runs them in a controlled environment.

Symbolic mode: numpy, gurobipy, time, random, csv, os, ... are the stand-ins of this package and numbers may be symbolic.
Concrete mode (replay): real numpy, real floats, the compiled C++ code; only the MIP solver, clock, randomness and files
are stand-ins, driven by the recorded values."""
import builtins
import io
import math
import os
import sys
import time as _time
import types

import numpy as np
import z3

from . import engine as E
from . import grb, npshim
from .engine import SymNum, SymBool, issym, is_num

REPO = os.environ.get("VERIF_REPO", "/repo")
_code = {}


class RepoError(Exception):
    """The repository could not be loaded."""


def _compiled(path):
    c = _code.get(path)
    if c is None:
        with builtins.open(path, encoding="utf-8") as f:
            c = compile(f.read(), path, "exec")
        _code[path] = c
    return c


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float)

    def __subclasscheck__(cls, o):
        return issubclass(o, float)


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        return getattr(math, n)

    @staticmethod
    def isinf(x):
        return False if issym(x) else math.isinf(x)

    @staticmethod
    def isnan(x):
        return False if issym(x) else math.isnan(x)

    @staticmethod
    def isfinite(x):
        return True if issym(x) else math.isfinite(x)

    @staticmethod
    def sqrt(x):
        return x.sqrt() if issym(x) else math.sqrt(x)

    @staticmethod
    def fabs(x):
        return abs(x) if issym(x) else math.fabs(x)

    @staticmethod
    def fsum(it):
        it = list(it)
        if any(issym(x) for x in it):
            r = 0
            for x in it:
                r = r + x
            return r
        return math.fsum(it)

    @staticmethod
    def prod(it, start=1):
        r = start
        for x in it:
            r = r * x
        return r

    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if not issym(a) and not issym(b):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        return abs(a - b) <= npshim.E.smax2(rel_tol * E.smax2(abs(a), abs(b)), abs_tol)

    @staticmethod
    def floor(x):
        return x.__floor__() if issym(x) else math.floor(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if issym(x) else math.ceil(x)

    @staticmethod
    def trunc(x):
        return int(x) if issym(x) else math.trunc(x)

    @staticmethod
    def dist(p, q):
        return npshim.norm_of([a - b for a, b in zip(p, q)])

    @staticmethod
    def hypot(*a):
        return npshim.norm_of(list(a))


def _smax(real, two):
    def f(*args, key=None, default=_smax):
        vals = list(args[0]) if len(args) == 1 else list(args)
        if key is not None or not any(issym(v) for v in vals) or not all(issym(v) or is_num(v) for v in vals):
            kw = {}
            if key is not None:
                kw["key"] = key
            if default is not _smax and len(args) == 1:
                kw["default"] = default
            return real(vals, **kw)
        r = vals[0]
        for v in vals[1:]:
            r = two(r, v)
        return r
    return f


class World:
    def __init__(self, ctx, **env):
        self.ctx = ctx
        self.sym = ctx.symbolic
        self.mods = {}
        self.files = {}          # virtual files: path -> text
        self.file_log = []
        self.printed = []
        self.argv = ["prog"]
        self.clock = env.get("clock") or (lambda: 0.0)
        self.oracle = env.get("oracle")
        self.perm = env.get("perm")            # environment's permutation: n -> list
        self.violations_fn = env.get("violations")
        self.np_random = env.get("np_random")
        self.keep_print = False
        self.signals = []
        grb.Model.created = []
        grb.Model.oracle = staticmethod(self._optimize)
        grb.Var._count[0] = 0
        self.shims = self._shims()
        self.builtins = self._builtins()
        # forget modules of earlier worlds
        for m in [m for m in sys.modules if m == "src" or m.startswith("src.") or m == "violations"]:
            del sys.modules[m]

    def _optimize(self, model, cb):
        if self.oracle is None:
            raise E.Unsupported("the harness gave no MIP oracle")
        return self.oracle(model, cb)

    # -- environment
    def permutation(self, n, label="perm"):
        """An arbitrary permutation of range(n) chosen by the environment."""
        if self.perm is not None:
            return self.perm(n)
        rest = list(range(n))
        out = []
        while rest:
            out.append(rest.pop(self.ctx.choice(len(rest), label)))
        return out

    def _shims(self):
        s = {}
        if self.sym:
            nps = npshim.Numpy()
            s["numpy"] = nps
            s["numpy.linalg"] = nps.linalg
            s["math"] = MathShim()
        else:
            s["numpy"] = np
            nps = np
        if self.np_random is not None:
            if not self.sym:
                proxy = types.ModuleType("numpy")
                proxy.__getattr__ = lambda n: getattr(np, n)
                nps = proxy
                s["numpy"] = proxy
            nps.random = self.np_random
            s["numpy.random"] = self.np_random
        g = grb.module()
        s["gurobipy"] = g
        g.gurobipy = g
        t = types.ModuleType("time")
        t.time = lambda: self.clock()
        t.perf_counter = t.monotonic = t.process_time = t.time
        t.sleep = lambda x: None
        t.__getattr__ = lambda n: getattr(_time, n)
        s["time"] = t
        s["random"] = self._random()
        s["csv"] = self._csv()
        s["os"], s["os.path"] = self._os()
        sy = types.ModuleType("sys")
        sy.argv = self.argv
        sy.exit = sys.exit
        sy.stdout, sy.stderr = io.StringIO(), io.StringIO()
        sy.path = []
        sy.modules = sys.modules
        sy.maxsize = sys.maxsize
        sy.float_info = sys.float_info
        sy.__getattr__ = lambda n: getattr(sys, n)
        s["sys"] = sy
        si = types.ModuleType("signal")
        si.SIGALRM, si.SIGINT, si.SIGTERM = 14, 2, 15
        si.signal = lambda a, b: self.signals.append(("signal", a))
        si.alarm = lambda a: self.signals.append(("alarm", a))
        si.setitimer = lambda *a: self.signals.append(("itimer",) + a)
        si.raise_signal = lambda a: None
        s["signal"] = si
        v = types.ModuleType("violations")
        v.compute_all_violations = self._violations
        s["violations"] = v
        return s

    def _violations(self, A, b):
        if self.violations_fn is not None:
            return self.violations_fn(A, b)
        if self.sym:
            raise E.Unsupported("the harness gave no violation table")
        from . import cviol
        return cviol.compute(np.ascontiguousarray(A, dtype=float), np.ascontiguousarray(b, dtype=float))

    def _random(self):
        w = self
        m = types.ModuleType("random")

        def sample(pop, k, counts=None):
            pop = list(pop)
            if not 0 <= k <= len(pop):
                raise ValueError("Sample larger than population or is negative")
            return [pop[i] for i in w.permutation(len(pop))[:k]]

        def shuffle(x):
            p = w.permutation(len(x))
            x[:] = [x[i] for i in p]

        def choice(seq):
            if not len(seq):
                raise IndexError("Cannot choose from an empty sequence")
            return seq[w.ctx.choice(len(seq), "rchoice")]

        def randrange(a, b=None, step=1):
            r = range(a) if b is None else range(a, b, step)
            return r[w.ctx.choice(len(r), "rand")]
        m.sample, m.shuffle, m.choice, m.randrange = sample, shuffle, choice, randrange
        m.randint = lambda a, b: randrange(a, b + 1)
        m.seed = lambda *a: None

        def rnd():
            return w.ctx.real(w.ctx.fresh("rnd_uniform"), 0, 1)
        m.random = rnd

        class Random:
            def __init__(self, *a):
                pass
        for n in ("sample", "shuffle", "choice", "randrange", "randint", "seed", "random"):
            setattr(Random, n, staticmethod(getattr(m, n)))
        m.Random = Random
        return m

    # -- virtual files
    def put(self, path, rows, delimiter=","):
        """A data file whose numbers may be symbolic."""
        self.files[self._norm(path)] = "".join(delimiter.join(self.text(v) for v in r) + "\n" for r in rows)

    def text(self, v):
        if issym(v):
            return str(v)
        if isinstance(v, str):
            return v
        return repr(float(v)) if isinstance(v, (float, np.floating)) else repr(int(v))

    @staticmethod
    def _norm(p):
        p = os.path.normpath(str(p))
        return "/" + p.lstrip("/") if p.startswith("//") else p

    def open(self, path, mode="r", *a, **k):
        p = self._norm(path)
        w = self
        if "r" in mode and "+" not in mode:
            if p not in self.files:
                raise FileNotFoundError(2, "No such file or directory", p)
            f = io.StringIO(self.files[p])
            f.name = p
            return f
        if "b" in mode:
            raise E.Unsupported("binary file")
        keep = self.files.get(p, "") if "a" in mode else ""

        class F(io.StringIO):
            def close(s):
                if not s.closed:
                    w.files[p] = keep + s.getvalue()
                    w.file_log.append(p)
                super().close()

            def flush(s):
                w.files[p] = keep + s.getvalue()

            def __exit__(s, *a):
                s.close()

            def __del__(s):
                s.close()
        d = os.path.dirname(p)
        if d not in self.dirs and d not in ("", "/", "."):
            raise FileNotFoundError(2, "No such file or directory", p)
        f = F(newline="")
        f.name = p
        w.files[p] = keep
        return f

    def _csv(self):
        import csv
        if not self.sym:
            return csv
        w = self
        m = types.ModuleType("csv")
        m.__getattr__ = lambda n: getattr(csv, n)

        def reader(f, *a, quoting=csv.QUOTE_MINIMAL, **k):
            for row in csv.reader(f, *a, **k):
                if quoting == csv.QUOTE_NONNUMERIC:
                    row = [w.tofloat(c) for c in row]
                yield row
        m.reader = reader
        return m

    def tofloat(self, c):
        if isinstance(c, str):
            v = self.ctx.parse_token(c)
            if v is not None:
                return v
        return float(c)

    def _os(self):
        w = self
        self.dirs = {"", ".", "/"}
        o = types.ModuleType("os")
        p = types.ModuleType("os.path")

        def exists(x):
            x = w._norm(x)
            return x in w.files or x in w.dirs or any(f.startswith(x + "/") for f in w.files)

        def makedirs(x, *a, exist_ok=False, **k):
            x = w._norm(x)
            if exists(x) and not exist_ok:
                raise FileExistsError(17, "File exists", x)
            while x and x != "/":
                w.dirs.add(x)
                x = os.path.dirname(x)
        p.exists = exists
        p.isfile = lambda x: w._norm(x) in w.files
        p.isdir = lambda x: exists(x) and w._norm(x) not in w.files
        p.__getattr__ = lambda n: getattr(os.path, n)
        o.path = p
        o.makedirs = makedirs
        o.mkdir = makedirs
        o.environ = dict()
        o.sep = "/"
        o.listdir = lambda x=".": sorted(os.path.basename(f) for f in w.files if os.path.dirname(f) == w._norm(x))
        o.getcwd = lambda: "/"
        o.fspath = os.fspath

        def deny(n):
            if n in ("linesep", "extsep", "curdir", "name", "PathLike", "cpu_count", "getpid"):
                return getattr(os, n)
            raise E.Unsupported("os." + n)
        o.__getattr__ = deny
        return o, p

    # -- builtins and imports
    def _builtins(self):
        w = self
        b = dict(vars(builtins))
        b["print"] = self._print
        b["open"] = self.open
        b["__import__"] = self._import
        b["input"] = lambda *a: ""
        b["exit"] = b["quit"] = sys.exit
        if self.sym:
            b["max"] = _smax(builtins.max, E.smax2)
            b["min"] = _smax(builtins.min, E.smin2)

            class float_(float, metaclass=_FloatMeta):
                def __new__(cls, v=0.0):
                    if isinstance(v, SymNum):
                        return E.mknum(z3.ToReal(v.e) if v.e.is_int() else v.e, v.npf)
                    if isinstance(v, SymBool):
                        return v.num()
                    if isinstance(v, str):
                        t = w.ctx.parse_token(v)
                        if t is not None:
                            return t
                    return builtins.float(v)
            float_.__name__ = float_.__qualname__ = "float"
            b["float"] = float_

            def sorted_(it, key=None, reverse=False):
                return builtins.sorted(it, key=key, reverse=reverse)
            b["sorted"] = sorted_
        return b

    def _print(self, *a, **k):
        if self.keep_print:
            self.printed.append(a)

    def _find(self, name):
        rel = name.replace(".", "/")
        for c in (rel + ".py", rel + "/__init__.py"):
            f = os.path.join(REPO, c)
            if os.path.isfile(f):
                return f, c.endswith("__init__.py")
        if os.path.isdir(os.path.join(REPO, rel)):
            return None, True
        return None, None

    def load(self, name):
        """Module of the repository by dotted name."""
        if name in self.mods:
            return self.mods[name]
        path, pkg = self._find(name)
        if pkg is None:
            raise ModuleNotFoundError("No module named " + name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        if pkg:
            m.__path__ = [os.path.join(REPO, name.replace(".", "/"))]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
        self.mods[name] = m
        sys.modules[name] = m
        if path:
            m.__file__ = path
            try:
                exec(_compiled(path), m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                sys.modules.pop(name, None)
                raise
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        return m

    def get(self, name, attr):
        return getattr(self.load(name), attr)

    def run_script(self, relpath, argv):
        """Runs a script of the repository as __main__."""
        path = os.path.join(REPO, relpath)
        self.argv[:] = [relpath] + list(argv)
        m = types.ModuleType("__main__")
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = "/" + relpath
        exec(_compiled(path), m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - level + 1])
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if name in self.shims:
            if fromlist or "." not in name:
                return self.shims[name]
            return self.shims[top]
        if top in self.shims:
            m = self.shims[top]
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m if fromlist else self.shims[top]
        if self._find(top)[1] is not None:
            m = self.load(name)
            if fromlist:
                for a in fromlist:
                    if a != "*" and not hasattr(m, a) and hasattr(m, "__path__"):
                        try:
                            self.load(name + "." + a)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)


# ---------------------------------------------------------------- instances
def sym_instance(w, N, m, n, cont, eps, name="inst", A=None, b=None, c=None, hiA=None):
    """Writes an instance file with symbolic data and loads it with the repository's own loader."""
    ctx = w.ctx
    c = c or [ctx.real("c_%d" % j, 0) for j in range(n)]
    A = A or [[[ctx.real("A_%d_%d_%d" % (s, i, j), 0, hiA) for j in range(n)] for i in range(m)] for s in range(N)]
    b = b or [ctx.real("b_%d" % i, 0) for i in range(m)]
    rows = [[n, m, N], c] + [A[s][i] for s in range(N) for i in range(m)] + [b]
    if not ctx.symbolic:
        # the loader keeps one decimal; the specification speaks of the loaded data
        r1 = lambda v: float(np.round(v, 1))
        A, b, c = [[[r1(v) for v in r] for r in s] for s in A], [r1(v) for v in b], [r1(v) for v in c]
    path = "/data/%s.csv" % name
    w.put(path, rows)
    inst = w.get("src.instance.ChanceKnapInstance", "ChanceKnapInstance")(path, cont, eps)
    return inst, A, b, c
