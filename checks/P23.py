"""P23: subset costs are the deterministic optimum of exactly that subset."""
from .common import *
from vf import models as M, grb

FUNCTIONS = ["Evaluator.subset_cost", "Evaluator.scenario_costs", "Evaluator.get_all_single_scenario_costs", "Evaluator.partition_cost",
             "DeterModel.build", "DeterModel.add", "OptiModel._initialize_var_x", "OptiModel._initialize_obj", "OptiModel.solve",
             "OptiModel.get_obj_val", "OptiModel.get_var_x_val"]
SOURCES = ["src/Evaluator.py", "src/optim/DeterModel.py", "src/optim/OptiModel.py"]
ASSUMPTIONS = ["gurobipy is replaced by a recorder; its answer is an arbitrary value and point per solve"]
OPTS = dict(nl="mono")


def bounds(tier):
    return "N<=%d, m<=2, n<=2, arbitrary data, every call form (scenario number, list of scenarios, every partition in every order of subsets)" % (3 if tier == "quick" else 4)


def configs(tier):
    out = []
    for cont in (True, False):
        for N, m, n in ((1, 1, 1), (2, 2, 1), (3, 1, 2)) + (((4, 1, 1), (3, 2, 2)) if tier == "thorough" else ()):
            out.append(dict(N=N, m=m, n=n, cont=cont, call="all"))
            out.append(dict(N=N, m=m, n=n, cont=cont, call="list", subset=list(reversed(range(N)))))
            out.append(dict(N=N, m=m, n=n, cont=cont, call="list", subset=[N - 1]))
            out.append(dict(N=N, m=m, n=n, cont=cont, call="int", subset=[N - 1]))
            out.append(dict(N=N, m=m, n=n, cont=cont, call="scenarios", subset=[N - 1] + list(range(N - 1))))
            for p in partitions(N):
                out.append(dict(N=N, m=m, n=n, cont=cont, call="partition", part=p))
                if len(p) > 1:
                    out.append(dict(N=N, m=m, n=n, cont=cont, call="partition", part=[q[::-1] for q in p[::-1]]))
        # several calls on one object
        out.append(dict(N=3, m=1, n=1, cont=cont, seq=[("partition", [[0, 1], [2]]), ("list", [0, 2]), ("int", [1]), ("list", [2, 1])]))
        out.append(dict(N=3, m=1, n=1, cont=cont, seq=[("all", None), ("partition", [[2, 0], [1]]), ("partition", [[1, 2], [0]]), ("list", [0, 1, 2])]))
        # more scenarios than one digit, more items
        out.append(dict(N=12, m=1, n=1, cont=cont, seq=[("list", [11, 2, 10, 1, 0, 9]), ("partition", [[5, 11, 0], [1, 10], [2, 3, 4, 6, 7, 8, 9]])]))
        out.append(dict(N=11, m=1, n=1, cont=cont, call="all"))
        out.append(dict(N=2, m=1, n=7, cont=cont, call="list", subset=[1, 0]))
        if tier != "quick":
            for p in partitions(3):
                for q in partitions(3):
                    out.append(dict(N=3, m=1, n=2, cont=cont, seq=[("partition", p), ("partition", q), ("list", q[0]), ("all", None)]))
    return out


def harness(ctx, cfg):
    N, m, n = cfg["N"], cfg["m"], cfg["n"]
    answers, gaps = [], []

    def oracle(model, cb):
        i = len(answers)
        v = ctx.real("val_%d" % i)
        xs = [ctx.real("sol_%d_%d" % (i, j)) for j in range(n)]
        if len(model._vars) != n:
            raise E.Unsupported("model has %d variables" % len(model._vars))
        # variables are recognised by their objective coefficient: give each its own value in creation order
        model.set_solution({var._id: xs[j] for j, var in enumerate(model._vars)}, v, v)
        for _, u, _, _ in answers:
            ctx.assume(zor(v >= u + 1, v <= u - 1))      # only to tell the solves apart
        answers.append((model, v, xs, list(model._constrs)))
        g = model._params.get("mipgap", 1e-4)
        gaps.append(float(g) if not cfg["cont"] else 0.0)
    w = World(ctx, oracle=oracle)
    inst, A, b, c = sym_instance(w, N, m, n, cfg["cont"], 0.5)
    ev = w.get("src.Evaluator", "Evaluator")(inst)
    x = [ctx.real("x_%d" % j) for j in range(n)]

    def which(cost):
        """The solve that gave this cost."""
        for k, (_, v, _, _) in enumerate(answers):
            if ctx.symbolic:
                if E.issym(cost) and E.z(cost).eq(E.z(v)):
                    return k
            elif abs(float(cost) - float(v)) < 1e-6:
                return k
        return None

    def expect(subset, cost, sol):
        """(cost, sol) are the outcome of a solve of the deterministic problem of `subset`."""
        k = which(cost)
        ctx.check(k is not None, "cost is not the optimal value of a solve")
        model, v, xs, cons = answers[k]
        val = M.assign(list(zip(model._vars, x)))
        got = zand([q.cond(val) for q in cons] + [model.bounds_cond(u, val(u)) for u in model._vars])
        from .P10 import spec_box
        spec = zand([sat(A[s], b, x) for s in subset] + [spec_box(x, cfg["cont"])])
        ctx.check(zimp(got, spec), "a constraint of the subset is missing")
        ctx.check(zimp(spec, got), "a constraint outside the subset is enforced")
        ctx.check(model._sense == grb.GRB.MAXIMIZE, "objective is maximised")
        ctx.check(ctx.eq(model.objective(val), dot(c, x)), "objective is the instance's")
        ctx.check(gaps[k] <= 1e-6, "costs serve as upper bounds but are not solved to optimality")
        if sol is not None:
            ctx.check(len(sol) == n, "solution has one entry per variable")
            for j in range(n):
                ctx.check(ctx.eq(sol[j], xs[j]), "solution is not the one of that solve")
    for call, arg in cfg.get("seq") or [(cfg["call"], cfg.get("part") or cfg.get("subset"))]:
        if call == "all":
            costs = ev.get_all_single_scenario_costs()
            ctx.check(len(costs) == N, "one cost per scenario")
            for s in range(N):
                expect([s], costs[s], None)
        elif call == "scenarios":
            costs = ev.scenario_costs(list(arg))
            ctx.check(len(costs) == len(arg), "one cost per scenario")
            for i, s in enumerate(arg):
                expect([s], costs[i], None)
        elif call in ("list", "int"):
            cost, sol = ev.subset_cost(list(arg) if call == "list" else arg[0])
            expect(arg, cost, sol)
        else:
            part = [list(p) for p in arg]
            costs, sols = ev.partition_cost(part)
            ctx.check(len(costs) == len(part) == len(sols), "one cost and solution per subset")
            for i, p in enumerate(arg):
                expect(p, costs[i], sols[i])
            ctx.check(part == [list(p) for p in arg], "the partition was modified")
