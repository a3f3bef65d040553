"""Runs the real AdaptivePartitioner.solve / MilpSolver.solve on arbitrary instances, with a solver stand-in that may give any
answer a correct MIP solver may give."""
import itertools

import numpy as _np

from .common import *
from vf import models as M, grb

FUNCTIONS = ["AdaptivePartitioner.__init__", "AdaptivePartitioner.solve", "AdaptivePartitioner._upper_bound", "AdaptivePartitioner._lower_bound",
             "AdaptivePartitioner._split", "AdaptivePartitioner._merge", "AdaptivePartitioner._merge_all_feasible_subsets",
             "AdaptivePartitioner._merge_mu_plus_one_feasible", "AdaptivePartitioner._post_merge_processing",
             "AdaptivePartitioner._improve_vlb_with_candidate_sols", "AdaptivePartitioner._setup_initial_partition", "Solver.solve_cclp_model",
             "UpperBounder.*", "LowerBounder.*", "Evaluator.*", "Initializer.*", "Refiner.*", "RandomRefiner.*", "CostRefiner.*", "Merger.*",
             "Warmstarter.*", "Informer.store_iteration_info", "BigMFinder.*", "CCLPModel.*", "DeterModel.*", "PartitionChanceKnapInstance.*",
             "ChanceKnapInstance.*"]
SOURCES = ["src/solver/AdaptivePartitioner.py", "src/solver/Solver.py", "src/UpperBounder.py", "src/LowerBounder.py", "src/Evaluator.py",
           "src/Initializer.py", "src/refiner/Refiner.py", "src/refiner/RandomRefiner.py", "src/refiner/CostRefiner.py", "src/Merger.py",
           "src/Warmstarter.py", "src/BigMFinder.py", "src/optim/CCLPModel.py", "src/optim/OptiModel.py", "src/optim/DeterModel.py",
           "src/instance/PartitionChanceKnapInstance.py", "src/instance/ChanceKnapInstance.py"]
ASSUMPTIONS = [
    "the MIP solver returns an optimal solution (or reports infeasibility exactly when there is none) of the model it is given; binary models: any "
    "optimal 0/1 point; continuous models: optimality is used only against the solver's other answers and one arbitrary feasible point of the problem",
    "the split model answers with any assignment satisfying its 0/1 constraints",
    "no scenario is violated by an amount strictly between 0 and 1e-3 at a 0/1 point (data have one decimal), or between 0 and 2e-3 at a point returned by the solver "
    "in the continuous case (the code's tolerances are 1e-6 and 1e-3)",
    "the first partition is taken in the order of the scenarios (they are interchangeable); later random orders are arbitrary",
    "a binary deterministic model over the same scenarios is answered the same way each time",
    "floats are exact reals; products of data and points abstracted by one variable per monomial (continuous case)"]


class Sim:
    def __init__(self, ctx, cfg, clock=None, on_model=None):
        self.ctx, self.cfg = ctx, cfg
        self.N, self.m, self.n, self.cont = cfg["N"], cfg["m"], cfg["n"], cfg["cont"]
        self.k = kfloor(cfg["eps"], self.N)
        self.on_model = on_model or (lambda kind, model, info: None)
        self.nperm = 0
        self.log = []           # (kind, ...)
        self.nsol = 0
        self.ncclp = 0
        self.niter = 0
        self.memo = {}
        self.chance_memo = {}
        self.past = []          # continuous: earlier maximisation models (holds function, value)
        self.pts = []
        self.zmode = cfg.get("z", "max")
        self.now, self.ticks, self.nmodels, self.built = 0.0, 0, 0, None
        if cfg.get("clock"):
            clock = self.time
        elif cfg.get("stop"):
            clock = lambda: self.now
        self.w = World(ctx, oracle=self.oracle, clock=clock, perm=self.perm, violations=self.table if ctx.symbolic else None)
        self.T = None
        A = b = None
        if cfg.get("fam") == "unit":
            # each scenario admits single items of an arbitrary set only: A is 0.6 or 2.0, b is 1
            b = [1.0]
            # (constants kept as terms so that every array of the code can hold terms)
            one = lambda v: E.SymNum(z3.RealVal(v)) if ctx.symbolic else float(v)
            adm = cfg.get("adm") or [[None] * self.n] * self.N
            A = [[[one(("2", "0.6")[ctx.choice(2, "adm") if adm[s][j] is None else adm[s][j]]) for j in range(self.n)]] for s in range(self.N)]
        self.inst, self.A, self.b, self.c = sym_instance(self.w, self.N, self.m, self.n, self.cont, float(cfg["eps"]), A=A, b=b,
                                                         c=cfg.get("cvec") or ([1.0] * self.n if cfg.get("unitc") else None))
        if self.cont:
            self.ystar = [ctx.real("ystar_%d" % j, 0, 1) for j in range(self.n)]
            ctx.assume(chance_feasible(self.A, self.b, self.ystar, self.k))
            self.pts.append(self.ystar)
        else:
            self.pts = M.binary_points(self.n)
            if cfg.get("fam") == "unit":
                self.pts = [y for y in self.pts if sum(y) <= 1]
            else:
                self.zone(self.pts, 1e-3)
        if cfg.get("fam") == "unit" and not cfg.get("unitc"):
            for p, q in zip(self.c, self.c[1:]):
                ctx.assume(p >= q)       # items are interchangeable
        for cj in self.c:
            if E.issym(cj):
                ctx.assume(cj >= 0.1)
            elif not ctx.symbolic and cj < 0.1:
                raise E.ReplayMismatch("objective coefficient")

    def zone(self, pts, gap):
        """No row is violated only slightly at these points."""
        tol = 0 if self.ctx.symbolic else 1e-7
        for y in pts:
            for s in range(self.N):
                for i in range(self.m):
                    v = dot(self.A[s][i], y) - self.b[i]
                    self.ctx.assume(zor(v <= tol, v >= gap - tol))

    def perm(self, n):
        self.nperm += 1
        if self.nperm == 1 and self.cfg.get("init", "random") == "random" and self.cfg.get("method", "ap") == "ap":
            return list(range(n))
        if self.cfg.get("perm") == "id":
            return list(range(n))
        if self.cfg.get("perm") == "rev":
            return list(range(n)) if self.ctx.choice(2, "perm") else list(range(n))[::-1]
        rest, out = list(range(n)), []
        while rest:
            out.append(rest.pop(self.ctx.choice(len(rest), "perm")))
        return out

    def table(self, A_, b_):
        """A violation table with the guarantees of P13 only: entry (s,t,i) bounds the violation of (s,i) wherever t holds."""
        ctx, N = self.ctx, self.N
        self.T = [[[ctx.real("T_%d_%d_%d" % (s, t, i), npf=True) for i in range(self.m)] for t in range(N)] for s in range(N)]
        for s in range(N):
            for i in range(self.m):
                ctx.assume(self.T[s][s][i] <= 0)
        for y in self.pts:
            self.table_at(y)
        return self.w.shims["numpy"].array(self.T)

    def table_at(self, y):
        if self.T is None:
            return
        for s in range(self.N):
            for i in range(self.m):
                v = dot(self.A[s][i], y) - self.b[i]
                for t in range(self.N):
                    self.ctx.assume(zimp(sat(self.A[t], self.b, y), v <= self.T[s][t][i]))

    # -- solver
    def kind(self, model):
        ctx = self.ctx
        if ctx.symbolic:
            if model._sense == grb.GRB.MINIMIZE:
                k = "split"
            elif len(model._vars) > self.n:
                k = "cclp"
            else:
                try:
                    self.order(model)
                    k = "deter"
                except E.Unsupported:
                    k = "bigM"
            ctx.replay_extra.setdefault("kind", []).append(k)
            return k
        q, p = ctx.replay_extra.get("kind", []), ctx.cnt.get("kind", 0)
        ctx.cnt["kind"] = p + 1
        if p >= len(q):
            raise E.ReplayMismatch("no recorded model")
        return q[p]

    def order(self, model):
        """x variables in item order."""
        if self.cfg.get("unitc"):
            xs = [v for v in model._vars if v._id in model._objexpr.terms]
            if len(xs) != self.n or model._objexpr.const != 0 or not all(M.same(model._objexpr.terms[v._id][1], 1.0) for v in xs):
                raise E.Unsupported("x variables not recognised")
            return xs
        if self.ctx.symbolic and not (E.const_of(E.z(model._objexpr.const)) == 0 if E.issym(model._objexpr.const) else model._objexpr.const == 0):
            raise E.Unsupported("x variables not recognised")
        return ordered_x(self.ctx, model, self.c)

    def order_rec(self, model):
        """order(), recorded once for replays."""
        if self.ctx.symbolic or self.cfg.get("unitc"):
            return self.order(model)
        return ordered_x(self.ctx, model, self.c)

    tol = 1e-6               # tolerance on bounds
    insolve = interrupted = False
    gapped = False           # did the solver stop within its gap instead of at an optimum?
    t_cclp = None            # time when the first extended or partitioned model began to be built

    def expired(self):
        """Could a stop have happened: time used up or interruption?"""
        return self.interrupted or (self.now >= 3600.0)

    def tick(self):
        self.ticks += 1
        self.now = self.now + self.ctx.real("tick_%d" % self.ticks, 0)

    def time(self):
        """A clock that advances by arbitrary amounts while a model is built or solved."""
        if len(grb.Model.created) != self.nmodels:
            self.nmodels = len(grb.Model.created)
            self.built = self.now
            self.tick()
        return self.now

    def oracle(self, model, cb):
        k = self.kind(model)
        if self.cfg.get("intr") and self.insolve and ctx_choice(self.ctx, "intr"):
            self.interrupted = True
            model.set_infeasible(11)
            model.__dict__["_objbound"] = self.ctx.real(self.ctx.fresh("intr_bound"))
        else:
            getattr(self, "do_" + k)(model)
        if self.cfg.get("clock"):
            self.nmodels = len(grb.Model.created)
            self.tick()

    def stopped(self, model, xs, holds):
        """The solver stops at its time limit: without solution, or with some feasible one, and some valid bound."""
        ctx = self.ctx
        self.now = 1e9 if not self.cfg.get("clock") else self.now + ctx.real("late_%d" % self.ncclp, 0)
        bound = ctx.real("stop_bound_%d" % self.ncclp)
        if self.cont:
            raise E.Unsupported("stopped continuous model")
        ok = [zb(holds(y)) for y in self.pts]
        obj = [dot(self.c, y) for y in self.pts]
        ctx.assume(zand([zimp(ok[j], obj[j] <= bound) for j in range(len(ok))]))
        if ctx.choice(2, "incumbent"):
            q = self.select(ok)
            return [_np.float64(t) for t in self.pts[q]], obj[q], bound
        return None, None, bound

    def within_gap(self, model, xs, holds):
        """The solver stops within its gap: some feasible point, and some valid bound."""
        ctx = self.ctx
        ok = [zb(holds(y)) for y in self.pts]
        obj = [dot(self.c, y) for y in self.pts]
        q = self.select(ok)
        bound = ctx.real("gap_bound_%d" % self.ncclp)
        ctx.assume(zand(obj[q] <= bound, [zimp(ok[j], obj[j] <= bound) for j in range(len(ok))]))
        self.gapped = True
        return [_np.float64(t) for t in self.pts[q]], obj[q], bound

    def do_split(self, model):
        ctx = self.ctx
        i = self.nsol
        self.nsol += 1
        bins = {v._id: None for v in model._vars if v.vtype == "B"}
        for q, v in enumerate(model._vars):
            if v._id in bins:
                bins[v._id] = ctx.bool("pi_%d_%d" % (i, q))
        ctx.assume(zand([c.cond(lambda v: bins[v._id]) for c in model._constrs
                         if c.kind == "lin" and all(t in bins for t in c.expr.terms)]))
        ctx.feasible()
        vals = {v._id: (1.0 if bool(bins[v._id]) else 0.0) if v._id in bins else 0.0 for v in model._vars}
        # only the order of the values matters
        val = float(i) if self.cfg.get("alpha") == "fixed" else ctx.real("alpha_%d" % i, 0)
        self.on_model("split", model, None)
        model.set_solution(vals, val, val)

    def do_bigM(self, model):
        """Exact maximum over the 0/1 points."""
        if self.cont:
            raise E.Unsupported("unexpected model")
        best = None
        for y in M.binary_points(len(model._vars)):
            val = M.assign(list(zip(model._vars, y)))
            ok, v = model.holds(val), model.objective(val)
            best = v if best is None else E.ite(zand(ok, v > best), v, best)      # the first point is 0, feasible
        self.on_model("bigM", model, None)
        model.set_solution({v._id: 0.0 for v in model._vars}, best, best)

    def pick(self, model, xs, holds, rows, kind):
        """An optimal answer: (x, value) or None. holds(x): feasibility of x in the model as it is now."""
        ctx = self.ctx
        if not self.cont:
            pts = self.pts
            ok = [zb(holds(y)) for y in pts]
            obj = [dot(self.c, y) for y in pts]
            tol = 0 if ctx.symbolic else 1e-9
            acc = [self.accuracy(model) * abs(o) for o in obj] if self.cfg.get("gaps") else [0.0] * len(obj)
            conds = [zand(ok[i], [zimp(ok[j], obj[j] <= obj[i] + acc[i] + tol) for j in range(len(pts)) if j != i]) for i in range(len(pts))]
            if kind == "deter" and rows:
                conds.append(znot(zor(ok)))
            q = self.select(conds)
            if q == len(pts):
                return None
            return [_np.float64(t) for t in pts[q]], obj[q]
        t = len(self.past)
        if kind == "deter" and rows and ctx.choice(2, "infeasible"):
            for y in self.pts:
                ctx.assume(znot(holds(y)))
            ctx.feasible()
            if not ctx.symbolic and self.lp(model, xs, None) is not None:
                raise E.ReplayMismatch("model is feasible")
            return None
        x = [ctx.real("sol_%d_%d" % (t, j), 0, 1, npf=True) for j in range(self.n)]
        v = dot(self.c, x)
        if ctx.symbolic:
            ctx.assume(holds(x))
            self.zone([x], 2e-3)
            self.table_at(x)
            for y in self.pts:
                ctx.assume(zimp(holds(y), dot(self.c, y) <= v))
            for h, pv in self.past:
                ctx.assume(zimp(h(x), v <= pv))
            ctx.feasible()
        else:
            best = self.lp(model, xs, kind)
            if best is None:
                raise E.ReplayMismatch("model is infeasible")
            if not E.ConcreteCtx._b(holds([float(q) for q in x])) or v < best[1] - 1e-9:
                x, v = [_np.float64(q) for q in best[0]], best[1]
            self.zone([x], 2e-3)
        self.past.append((holds, v))
        self.pts.append(x)
        return x, v

    @staticmethod
    def accuracy(model):
        """The relative gap within which the solver may stop."""
        g = model._params.get("mipgap", 1e-4)
        if E.issym(g):
            raise E.Unsupported("symbolic MIPGap")
        return float(g)

    def best_bound(self, model, holds, v):
        """A bound the solver may report with an answer of value v: valid, and within its gap."""
        ctx = self.ctx
        bound = ctx.real(ctx.fresh("bound"))
        ctx.assume(zand(v <= bound, bound <= v + self.accuracy(model) * abs(v),
                        [zimp(zb(holds(y)), dot(self.c, y) <= bound) for y in self.pts]))
        return bound

    def select(self, conds):
        """An arbitrary one of the conditions that hold (at least one does)."""
        ctx = self.ctx
        t = self.ctx.fresh("answer")
        sel = [ctx.bool("%s_%d" % (t, i)) for i in range(len(conds))]
        ctx.assume(zor(sel))
        for s, c in zip(sel, conds):
            ctx.assume(zimp(s, c))
        for i, s in enumerate(sel):
            if bool(s):
                return i
        raise E.Prune()

    def lp(self, model, xs, kind):
        """Replay only: exact optimum of a continuous model by linear programming over all indicator patterns."""
        from scipy.optimize import linprog
        ids = [v._id for v in xs]
        zs = [v for v in model._vars if v._id not in ids]
        best = None
        for bits in itertools.product((0.0, 1.0), repeat=len(zs)):
            zv = {v._id: q for v, q in zip(zs, bits)}
            G, h, ok = [], [], True
            for c in model._constrs:
                if c.kind == "ind" and bool(zv[c.var._id]) != bool(c.bval):
                    continue
                row, const = [0.0] * len(ids), float(c.expr.const)
                for i, (v, a) in c.expr.terms.items():
                    if i in zv:
                        const += float(a) * zv[i]
                    else:
                        row[ids.index(i)] += float(a)
                for sg in ((1,) if c.sense_ == "<" else (-1,) if c.sense_ == ">" else (1, -1)):
                    if not any(row):
                        ok = ok and sg * const <= 1e-9
                    else:
                        G.append([sg * a for a in row])
                        h.append(-sg * const + 1e-10)
            if not ok:
                continue
            r = linprog([-float(q) for q in self.c], A_ub=G or None, b_ub=h or None, bounds=[(0, 1)] * len(ids))
            if r.status == 0 and (best is None or -r.fun > best[1]):
                x = [min(1.0, max(0.0, float(q))) for q in r.x]
                best = (x, float(sum(p * q for p, q in zip(self.c, x))), bits)
        return best

    def do_deter(self, model):
        ctx = self.ctx
        xs = self.order_rec(model)
        S, rest = M.enforced(ctx, model, xs, self.A, self.b)
        key = tuple(sorted(S))
        cons = list(model._constrs)
        bnd = [(v, v.lb, v.ub) for v in model._vars]

        def holds(x):
            val = M.assign(list(zip(xs, x)))
            return zand([c.cond(val) for c in cons], [model.bounds_cond(v, val(v)) for v, *_ in bnd])
        self.on_model("deter", model, (key, rest))
        if not rest and key in self.memo and not self.cont:
            r = self.memo[key]
        else:
            r = self.pick(model, xs, holds, bool(rest), "deter")
            if not rest:
                self.memo.setdefault(key, r) if not self.cont else self.memo.__setitem__(key, r)
        self.log.append(("deter", key, r))
        if r is None:
            model.set_infeasible()
        else:
            vals = {v._id: q for v, q in zip(xs, r[0])}
            model.set_solution(vals, r[1], self.best_bound(model, holds, r[1]) if self.cfg.get("gaps") else r[1])

    def zparts(self, model, xs):
        """Constraints of a partitioned or extended model: per indicator, on x alone, on several indicators."""
        ids = {v._id for v in xs}
        zs = [v for v in model._vars if v._id not in ids]
        per, own, joint = {v._id: [] for v in zs}, [], []
        for c in list(model._constrs):
            q = {i for i in c.expr.terms if i not in ids}
            if c.kind == "ind":
                q.add(c.var._id)
            if not q:
                own.append(c)
            elif len(q) == 1:
                per[q.pop()].append(c)
            else:
                if any(i in ids for i in c.expr.terms) or c.kind != "lin" or c.sense_ != ">":
                    raise E.Unsupported("unexpected constraint over several indicators")
                joint.append(c)
        if any(v.vtype != "B" for v in zs):
            raise E.Unsupported("indicator variable is not binary")
        bounds = [v for v in model._vars]

        def analyse(x):
            """(feasible with some z, [z is 1 in the largest z], [z may be 0])"""
            xv = {v._id: q for v, q in zip(xs, x)}

            def val(zd):
                return lambda v: xv[v._id] if v._id in xv else zd[v._id]
            one = {v._id: zand([c.cond(val({v._id: 1.0})) for c in per[v._id]]) for v in zs}
            zero = {v._id: zand([c.cond(val({v._id: 0.0})) for c in per[v._id]]) for v in zs}
            ok = [model.bounds_cond(v, xv[v._id]) for v in bounds if v._id in xv]
            ok += [c.cond(val({})) for c in own]
            ok += [zor(one[v._id], zero[v._id]) for v in zs]
            ok += [c.cond(lambda v: mkz(one[v._id])) for c in joint]
            return zand(ok), one, zero, joint
        return zs, analyse

    def do_cclp(self, model):
        ctx = self.ctx
        self.ncclp += 1
        if self.t_cclp is None:
            self.t_cclp = self.built
        if self.ncclp > self.cfg.get("solves", 2):
            raise E.Prune()
        xs = self.order_rec(model)
        zs, analyse = self.zparts(model, xs)
        self.on_model("cclp", model, (xs, zs, analyse))
        early = False
        stop = bool(self.cfg.get("stop")) and bool(ctx.choice(2, "stop"))
        if stop:
            x, v, bound = self.stopped(model, xs, lambda y: analyse(y)[0])
            self.log.append(("stop", (x, v), bound))
            if x is None:
                model.set_infeasible(9)
                model.__dict__["_objbound"] = bound
                return
            r = x, v
        elif self.cfg.get("early") and ctx.choice(2, "early"):
            x, v, bound = self.within_gap(model, xs, lambda y: analyse(y)[0])
            early, r = True, (x, v)
        else:
            r = self.pick(model, xs, lambda x: analyse(x)[0], False, "cclp")
        ok, one, zero, joint = analyse(r[0])
        vals = {v._id: q for v, q in zip(xs, r[0])}
        if self.zmode == "max":
            for v in zs:
                vals[v._id] = mkz(one[v._id])
        else:
            free = {}
            for q, v in enumerate(zs):
                t = ctx.choice(2, "z")
                ctx.assume(one[v._id] if t else zero[v._id])
                free[v._id] = float(t)
            ctx.assume(zand([c.cond(lambda v: free[v._id]) for c in joint]))
            ctx.feasible()
            vals.update(free)
        if stop:
            model.set_solution(vals, r[1], bound, 9)
            return
        self.log.append(("cclp", r, [vals[v._id] for v in zs]))
        if early:
            self.bound = bound
            model.set_solution(vals, r[1], bound)
            return
        if self.cfg.get("gaps"):
            self.bound = self.best_bound(model, lambda y: analyse(y)[0], r[1])
            model.set_solution(vals, r[1], self.bound)
            return
        bound = r[1] + ctx.real("slack_%d" % self.ncclp, 0, 1) if self.cfg.get("slack") else r[1]
        self.bound = bound
        model.set_solution(vals, r[1], bound)


def ctx_choice(ctx, label):
    return bool(ctx.choice(2, label))


def mkz(cond):
    """0/1 value of a condition."""
    if z3.is_true(cond):
        return 1.0
    if z3.is_false(cond):
        return 0.0
    return E.ite(cond, 1.0, 0.0)


def adaptive(sim, gap=1e-4, time_limit=1000.0):
    """The adaptive method of the configuration: (object, function that solves)."""
    cfg, w = sim.cfg, sim.w
    AP = w.get("src.solver.AdaptivePartitioner", "AdaptivePartitioner")
    ap = AP(sim.inst, split_method=cfg["split"], initial_partition_type=cfg["init"], projection_method=cfg["proj"],
            use_acc_obj=cfg["split"] == "cost", time_limit=time_limit, gap=gap)
    if cfg.get("part"):
        # any valid partition to start from
        ap.partition, ap.nb_subsets = [list(g) for g in cfg["part"]], len(cfg["part"])
        ap.chance_instance_part.load_partition(ap.nb_subsets, ap.partition)
        ap.zUB = w.shims["numpy"].zeros(ap.nb_subsets)
    finder = w.get("src.BigMFinder", "BigMFinder")(ap.chance_instance_part)
    refine = ap.refiner.refine

    def counted(*a, **k):
        # merging may lead back to earlier partitions when costs tie: runs are followed for a bounded number of iterations
        sim.niter += 1
        if sim.niter > cfg.get("iters", cfg.get("solves", 2) + 1):
            raise E.Prune()
        return refine(*a, **k)
    ap.refiner.refine = counted

    def go():
        big = cfg.get("bigM")
        ap.solve(finder, use_big_M=bool(big), big_m_method=big or "belotti", use_merger=bool(cfg.get("merge")), use_lazy=bool(cfg.get("lazy")))
    return ap, go


def chance(sim, x, tol=None):
    if tol is None:
        tol = 0 if sim.ctx.symbolic else 1e-6
    key = None
    if not any(E.issym(v) for v in x):
        key = (tuple(float(v) for v in x), tol)
        if key in sim.chance_memo:
            return sim.chance_memo[key]
    r = chance_feasible(sim.A, sim.b, list(x), sim.k, tol)
    if key:
        sim.chance_memo[key] = r
    return r


class Watch:
    """Checks the bounds of the adaptive method whenever it is observed."""

    def __init__(self, sim, ap):
        self.sim, self.ap = sim, ap
        self.lo, self.hi = None, None
        self.n = 0

    def valid_upper(self, v, msg):
        sim, ctx = self.sim, self.sim.ctx
        if not E.issym(v) and v == INF:
            return
        ok = []
        for y in (sim.pts if not sim.cont else [sim.ystar]):
            f = chance(sim, y, 0 if ctx.symbolic else -1e-9)
            ok.append(zimp(f, ctx.le(dot(sim.c, y), v + sim.tol).holds))
        ctx.check(zand(ok), msg)

    def see(self, where):
        sim, ctx, ap = self.sim, self.sim.ctx, self.ap
        self.n += 1
        hi, lo = ap.vUB, ap.vLB
        if self.n > 1 and hi is self.hi and lo is self.lo and getattr(ap, "xLB", None) is self.x:
            return
        self.x = getattr(ap, "xLB", None)
        self.valid_upper(hi, "the upper bound is below the optimum")
        fin = lambda v: E.issym(v) or abs(v) != INF
        if self.hi is not None and fin(self.hi):
            ctx.check(ctx.le(hi, self.hi + sim.tol), "the upper bound increased")
        if self.lo is not None and fin(self.lo):
            ctx.check(ctx.le(self.lo, lo + sim.tol), "the lower bound decreased")
        if fin(lo):
            x = getattr(ap, "xLB", None)
            ctx.check(x is not None and len(x) == sim.n, "a lower bound without solution")
            ctx.check(chance(sim, x), "the stored lower-bound solution is not feasible")
            ctx.check(ctx.eq(dot(sim.c, list(x)), lo) if sim.tol == 1e-6 else zand(dot(sim.c, list(x)) - lo <= sim.tol, lo - dot(sim.c, list(x)) <= sim.tol), "the lower bound is not the objective of the stored solution")
        self.hi, self.lo = hi, lo
