"""P19: the cost split model bounds the cost of both halves."""
from .common import *
from vf import models as M

FUNCTIONS = ["AccObjModel.__init__", "AccObjModel.build", "AccObjModel._initialize_alpha_obj", "AccObjModel._initialize_var_pi",
             "AccObjModel._initialize_var_lambda", "AccObjModel._initialize_var_eta", "AccObjModel._add_dual_feasibility_constraints",
             "AccObjModel._add_scenario_feasibility_constraints", "AccObjModel._add_assignment_constraints", "AccObjModel.get_subsets",
             "CostRefiner.accurate_obj_split", "OptiModel.solve"]
SOURCES = ["src/optim/AccObjModel.py", "src/optim/OptiModel.py", "src/refiner/CostRefiner.py"]
ASSUMPTIONS = ["the solution is any assignment of the captured model's variables satisfying its constraints and bounds exactly",
               "linear-programming duality: the cost of a half is the least value of its dual, so that a model admitting every dual "
               "feasible pair admits the pair of optimal ones",
               "0/1 variables are returned within 1e-5 of an integer"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "subsets of 2 or 3 scenarios out of 3, every set of at least two violated ones, %s, all nonnegative real data" % (
        "m, n <= 2" if tier == "quick" else "m <= 2, n <= 3, and subsets of 4 scenarios")


def configs(tier):
    out = []
    shapes = [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(1, 3), (2, 3), (3, 2)] if tier == "thorough" else [])
    subsets = [[0, 1], [2, 0], [1, 2, 0]] + ([[3, 1, 0, 2]] if tier == "thorough" else [])
    for sub in subsets:
        bads = [q for q in ([s for j, s in enumerate(sub) if k >> j & 1] for k in range(1 << len(sub))) if len(q) >= 2]
        for bad in bads:
            for m, n in shapes:
                for part in ("bound", "admits"):
                    for cont in ((True, False) if (m, n) == (1, 1) else (True,)):
                        out.append(dict(part=part, sub=sub, bad=bad, m=m, n=n, cont=cont))
    return out


def roles(ctx, model, N, sub, A, b, c, n, m):
    """Which variable is which: ('pi', side, s), ('lam', side, k), ('eta', side, s, i), ('alpha',), by the model's structure."""
    if not ctx.symbolic:
        r = ctx.replay_extra["roles"]
        if len(r) != len(model._vars):
            raise E.ReplayMismatch("model differs")
        return [tuple(q) for q in r]
    pos = {v._id: i for i, v in enumerate(model._vars)}
    role = [None] * len(model._vars)
    eqs = []
    for k in model._constrs:
        if k.kind == "lin" and k.sense_ == "=" and all(v.vtype == "C" for v, _ in k.expr.terms.values()):
            eqs.append({pos[i]: cf for i, (_, cf) in k.expr.terms.items()})
            eqs[-1]["rhs"] = k.expr.const
    # sides: connected components of the equality rows
    comps = []
    for e in eqs:
        vs = {i for i in e if i != "rhs"}
        joined = [q for q in comps if q[0] & vs]
        for q in joined:
            comps.remove(q)
        comps.append((vs.union(*[q[0] for q in joined]) if joined else vs, [e] + [r for q in joined for r in q[1]]))
    groups = [(n_vars, rows) for n_vars, rows in comps]
    if n > 1 and len(groups) == 2 or n == 1 and len(groups) == 2:
        pass
    else:
        raise E.Unsupported("split model not recognised: %d independent halves" % len(groups))
    for side, (vs, rows) in enumerate(sorted(groups, key=lambda g: min(g[0]))):
        byj = []
        for j in range(n):
            hit = [r for r in rows if M.same(r["rhs"], -c[j]) or M.same(r["rhs"], c[j])]
            if len(hit) != 1:
                raise E.Unsupported("split model not recognised: rows of the variables")
            sg = 1 if M.same(hit[0]["rhs"], -c[j]) else -1
            byj.append({i: cf * sg for i, cf in hit[0].items() if i != "rhs"})
        for i in sorted(vs):
            col = [r.get(i, 0) for r in byj]
            if all(not E.issym(q) for q in col):
                nz = [j for j in range(n) if col[j] != 0]
                if len(nz) == 1 and abs(float(col[nz[0]])) == 1:
                    role[i] = ("lam", side, nz[0] if float(col[nz[0]]) < 0 else nz[0] + n)
            else:
                for s in sub:
                    for q in range(m):
                        if all(M.same(col[j], A[s][q][j]) for j in range(n)):
                            role[i] = ("eta", side, s, q)
    # a 0/1 variable belongs to the side and scenario of the multipliers it switches off
    for k in model._constrs:
        if k.kind == "ind":
            for vid in k.expr.terms:
                r = role[pos[vid]]
                if r and r[0] == "eta":
                    role[pos[k.var._id]] = ("pi", r[1], r[2])
    for i, v in enumerate(model._vars):
        if role[i] is None and v.vtype == "C" and v._id in model._objexpr.terms:
            role[i] = ("alpha",)
    want = {("alpha",)} | {("pi", g, s) for g in (0, 1) for s in sub} | {("lam", g, k) for g in (0, 1) for k in range(2 * n)} | \
        {("eta", g, s, i) for g in (0, 1) for s in sub for i in range(m)}
    if set(role) != want or len(role) != len(want):
        raise E.Unsupported("split model not recognised: %s" % sorted(map(str, want ^ set(role)))[:4])
    ctx.replay_extra["roles"] = role
    return role


def harness(ctx, cfg):
    n, m, sub, bad = cfg["n"], cfg["m"], cfg["sub"], cfg["bad"]
    N = 4 if len(sub) > 3 else 3
    side = {}
    seen = []

    def split(tag):
        """Any division of the subset, as one boolean per scenario; decided on the path."""
        for s in sub:
            side[s] = bool(ctx.bool("%s_%d" % (tag, s)))

    def oracle(model, cb):
        seen.append(model)
        vals = {}
        if cfg["part"] == "bound":
            dev = ctx.real("dev", -1e-5, 1e-5)
            exact = {}
            for i, v in enumerate(model._vars):
                if v.vtype == "B":
                    bit = bool(ctx.bool("bin_%d" % i))
                    exact[v._id] = 1.0 if bit else 0.0
                    vals[v._id] = exact[v._id] + dev
                else:
                    x = ctx.real("v_%d" % i, v.lb if v.lb > -1e20 else None, v.ub if v.ub < 1e20 else None)
                    exact[v._id] = vals[v._id] = x
            at = lambda v: exact[v._id]
            ctx.assume(zand([k.cond(at) for k in model._constrs if k.kind == "lin" and
                             all(v.vtype == "B" for v, _ in k.expr.terms.values())]))
            ctx.assume(zand([k.cond(at) for k in model._constrs]))
            ctx.feasible()
            seen.append((exact, at))
            val = model._objexpr.at(at)
            model.set_solution(vals, val, val)
        else:
            r = roles(ctx, model, N, sub, A, b, c, n, m)
            at = {v._id: point(q) for v, q in zip(model._vars, r)}
            for k in model._constrs:
                ctx.check(k.cond(lambda v: at[v._id]), "the model excludes a division with the dual values of its two halves",
                          info=repr(k.expr.terms.keys()))
            for v in model._vars:
                if v.lb > -1e20:
                    ctx.check(ctx.le(v.lb, at[v._id]), "the model's bounds exclude a dual value")
                if v.ub < 1e20:
                    ctx.check(ctx.le(at[v._id], v.ub), "the model's bounds exclude a dual value")
            val = model._objexpr.at(lambda v: at[v._id])
            ctx.check(model.modelsense == 1, "the split model does not minimise")
            ctx.check(ctx.eq(val, alpha), "the model's value is not the larger of the two dual values")
            model.set_solution(at, val, val)

    w = World(ctx, oracle=oracle)
    inst, A, b, c = sym_instance(w, N, m, n, cfg["cont"], 0.34)
    if cfg["part"] == "admits":
        split("left")
        ctx.assume(zb(any(side[s] for s in bad) and any(not side[s] for s in bad)))
        ctx.feasible()
        halves = [[s for s in sub if side[s]], [s for s in sub if not side[s]]]
        # an arbitrary feasible point of each half's dual: min sum lam_j + b.eta, A'eta + lam - mu = c
        lam, mu, eta, dual = [], [], [], []
        for g in (0, 1):
            e = {(s, i): ctx.real("eta%d_%d_%d" % (g, s, i), 0) for s in halves[g] for i in range(m)}
            l = [ctx.real("lam%d_%d" % (g, j), 0) for j in range(n)]
            u = [sum((A[s][i][j] * e[s, i] for s in halves[g] for i in range(m)), l[j]) - c[j] for j in range(n)]
            for q in u:
                ctx.assume(q >= 0)
            eta.append(e)
            lam.append(l)
            mu.append(u)
            dual.append(sum((b[i] * e[s, i] for s in halves[g] for i in range(m)), sum(l, 0)))
        alpha = E.smax2(dual[0], dual[1]) if ctx.symbolic else max(dual)

        def point(q):
            if q[0] == "alpha":
                return alpha
            g = q[1]
            if q[0] == "pi":
                return 1.0 if q[2] in halves[g] else 0.0
            if q[0] == "lam":
                return mu[g][q[2]] if q[2] < n else lam[g][q[2] - n]
            return eta[g].get((q[2], q[3]), 0.0)
    ref = w.get("src.refiner.CostRefiner", "CostRefiner")(inst, use_acc_obj=True)
    given = list(sub)
    value, left, right = ref.accurate_obj_split(given, list(bad))
    ctx.check(given == sub, "the caller's list was modified")
    left, right = [int(s) for s in left], [int(s) for s in right]
    ctx.check(sorted(left + right) == sorted(sub), "the two halves do not divide the subset")
    ctx.check(any(s in left for s in bad) and any(s in right for s in bad), "a half has no violated scenario")
    if cfg["part"] == "admits":
        ctx.check(sorted([sorted(left), sorted(right)]) == sorted(map(sorted, halves)), "the halves read are not the model's")
        return
    model, (exact, at) = seen
    ctx.check(model.modelsense == 1, "the split model does not minimise")
    # any point of the relaxation of a half
    x = [ctx.real("x_%d" % j, 0, 1) for j in range(n)]
    for half in (left, right):
        slack = [b[i] - dot(A[s][i], x) for s in half for i in range(m)]
        hyp = [q >= 0 for q in slack]
        cx = dot(c, x)
        if ctx.symbolic:
            hyp += facts(ctx, model, at, exact, x, slack, A, b, sub, m, n)
        ctx.check(ctx.le(cx, value), "the value is below the relaxed cost of a half", when=zand(hyp))


def facts(ctx, model, at, exact, x, slack, A, b, sub, m, n):
    """Products of the hypotheses (each true of every solution and point): they make the argument linear in the products."""
    out = []
    for k in model._constrs:
        if k.kind == "ind":
            on = bool(round(exact[k.var._id])) == bool(k.bval)
            if on and k.sense_ == "=":
                e = k.expr.at(at)
                for s in sub:
                    for i in range(m):
                        out.append(zb(e * b[i] == 0))
                        for j in range(n):
                            out.append(zb(e * A[s][i][j] == 0))
                            out.append(zb(e * A[s][i][j] * x[j] == 0))
        elif k.sense_ == "=" and any(v.vtype == "C" for v, _ in k.expr.terms.values()):
            e = k.expr.at(at)
            for q in x:
                out.append(zb(e * q == 0))
    for v in model._vars:
        if v.vtype == "C" and v.lb > -1e20:
            p = exact[v._id] - v.lb
            for q in slack + list(x) + [1 - t for t in x]:
                out.append(zb(p * q >= 0))
    return out
