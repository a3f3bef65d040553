"""P17: the lower-bound step yields feasible solutions over any history."""
from .common import *
from vf import models as M, grb

FUNCTIONS = ["LowerBounder.__init__", "LowerBounder.deterministic_bound", "LowerBounder._solve_deter_model", "LowerBounder._get_selected_scenarios",
             "LowerBounder._get_index_scenarios", "LowerBounder.save_feasible_scenarios", "DeterModel.build", "DeterModel.add",
             "DeterModel.remove", "DeterModel._add_constraints", "DeterModel._remove_feasibility_constraints", "OptiModel.solve"]
SOURCES = ["src/LowerBounder.py", "src/optim/DeterModel.py", "src/optim/OptiModel.py"]
ASSUMPTIONS = ["the lower bound given to successive calls never decreases (P03)", "the solver's answer is 'infeasible' or any feasible point "
               "with its objective", "floats are exact reals"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "N<=%d, m<=2, n<=2, arbitrary data; every sequence of up to %d calls with arbitrary feasible sets counted in between (for N>=3 the first has one member), both projection " \
        "rules, arbitrary nondecreasing lower bounds (absent before the first), every pattern of feasible and infeasible answers" % (
            (4, 3) if tier == "quick" else (4, 4))


def configs(tier):
    out = []
    for N, m, n, eps, steps in ((1, 1, 1, "0.5", 2), (2, 2, 1, "0.5", 3), (3, 1, 1, "0.34", 3), (3, 1, 2, "0.67", 2), (3, 2, 1, "0", 2),
                                (4, 1, 1, "0.5", 2)) + (((3, 1, 1, "0.34", 4), (4, 1, 1, "0.25", 3)) if tier == "thorough" else ()):
        for cont in (True, False):
            if tier == "quick" and N >= 3 and cont != (N == 3 and n == 1):
                continue
            out.append(dict(N=N, m=m, n=n, eps=eps, steps=steps, cont=cont, rule="counter", first="num"))
        out.append(dict(N=N, m=m, n=n, eps=eps, steps=min(steps, 2), cont=True, rule="counter", first="-inf"))
    out.append(dict(N=2, m=1, n=1, eps="0.5", steps=2, cont=True, rule="rescaled_max_violation", first="num"))
    out.append(dict(N=3, m=1, n=1, eps="0.34", steps=2, cont=False, rule="rescaled_max_violation", first="-inf"))
    return out


def harness(ctx, cfg):
    N, m, n, cont = cfg["N"], cfg["m"], cfg["n"], cfg["cont"]
    k = kfloor(cfg["eps"], N)
    probe = [ctx.real("p_%d" % j) for j in range(n)]
    state = {}
    mono = []

    def oracle(model, cb):
        t = state["step"]
        xs = ordered_x(ctx, model, c)
        S, rest = M.enforced(ctx, model, xs, A, b)
        if model._sense != grb.GRB.MAXIMIZE:
            ctx.fail("the deterministic problem is not maximised")
        val = M.assign(list(zip(xs, probe)))
        got = model.holds(val)
        from .P10 import spec_box
        spec = zand([sat(A[s], b, probe) for s in S], spec_box(probe, cont))
        ctx.check(len(model._vars) == n, "the deterministic problem has exactly the instance's variables")
        ctx.check(len(set(S)) == N - k, "the problem solved does not enforce exactly N-floor(eps*N) scenarios")
        if state["vLB"] is not None:
            above = zand(spec, dot(c, probe) >= state["vLB"])
        else:
            above = spec
        ctx.check(zimp(got, spec), "a constraint of a selected scenario is missing")
        ctx.check(zimp(above, got), "a point at least as good as the lower bound and satisfying the selected scenarios is excluded")
        ctx.check(ctx.eq(model.objective(val), dot(c, probe)), "objective is the instance's")
        if ctx.choice(2, "answer"):
            model.set_infeasible()
            state["sol"] = None
        else:
            y = M.point(ctx, "y_%d" % t, n, cont)
            vy = M.assign(list(zip(xs, y)))
            ctx.assume(model.holds(vy))
            ctx.feasible()
            obj = dot(c, y)
            model.set_solution({v._id: q for v, q in zip(xs, y)}, obj, obj)
            state["sol"] = (y, obj, S)
        state["solved"] = True
    w = World(ctx, oracle=oracle)
    inst, A, b, c = sym_instance(w, N, m, n, cont, float(cfg["eps"]))
    lb = w.get("src.LowerBounder", "LowerBounder")(inst, projection_method=cfg["rule"])
    np = w.shims["numpy"]
    last = None
    for t in range(cfg["steps"]):
        state.update(step=t, solved=False)
        if cfg["rule"] == "counter":
            if N > 2 and t == 0:
                one = ctx.choice(N, "mask0")        # only this scenario was satisfied
                mask = [s == one for s in range(N)]
            else:
                mask = [ctx.choice(2, "mask") == 1 for _ in range(N)]
            lb.save_feasible_scenarios(np.array(mask))
        else:
            lb.save_feasible_scenarios(np.array([True] * N))
        if t == 0 and cfg["first"] == "-inf":
            v = None
            lb.vLB = -INF
        else:
            v = ctx.real("vLB_%d" % t, 0)
            if last is not None:
                ctx.assume(v >= last)
            lb.vLB = v
            last = v
        state["vLB"] = v
        xin = np.array([ctx.real("in_%d_%d" % (t, j), 0, 1, npf=True) for j in range(n)])
        x, val = lb.deterministic_bound(xin)
        ctx.check(state["solved"], "no problem was solved")
        if state["sol"] is None:
            if v is not None:
                ctx.check(ctx.le(val, v), "a step without solution reports a better bound")
        else:
            y, obj, S = state["sol"]
            ctx.check(len(x) == n, "the returned point has the wrong length")
            ctx.check(zand([ctx.eq(x[j], y[j]) for j in range(n)]), "the returned point is not the solution")
            ctx.check(ctx.eq(val, dot(c, list(x))), "the returned value is not the objective of the returned point")
            ctx.check(chance_feasible(A, b, list(x), k, tol=0 if ctx.symbolic else 1e-7), "the returned point violates more than floor(eps*N) scenarios")
            last = obj if last is None else E.smax2(last, obj)
