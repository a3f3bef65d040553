"""P25: instance files are loaded faithfully."""
from .common import *

FUNCTIONS = ["ChanceInstance.__init__", "ChanceInstance.read_data", "ChanceInstance.parse_data", "ChanceKnapInstance.__init__",
             "ChanceKnapInstance._parse_indices", "ChanceKnapInstance._parse_additional_parameters", "ChanceKnapInstance._parse_model_data",
             "ChanceInstance.get_*"]
SOURCES = ["src/instance/ChanceInstance.py", "src/instance/ChanceKnapInstance.py"]
ASSUMPTIONS = ["floats are exact reals; a tie between two decimals may be rounded either way", "the text of a number in a file stands for any real"]
OPTS = dict(nl="mono", grid={})


def bounds(tier):
    return "N<=%d scenarios, m<=3, n<=3, and sizes (N,m,n) = (1,1,12), (11,1,2), (2,6,2); arbitrary real coefficients (not only one-decimal ones), every pair of loads in either order" % (3 if tier == "quick" else 6)


def configs(tier):
    out = []
    sizes = [(1, 1, 1), (1, 2, 3), (2, 1, 2), (2, 2, 2), (3, 2, 1), (3, 1, 3), (2, 3, 2), (1, 1, 12), (11, 1, 2), (2, 6, 2)] + ([(4, 2, 2), (6, 3, 2), (3, 3, 3)] if tier == "thorough" else [])
    for q, (N, m, n) in enumerate(sizes):
        for cont in (True, False):
            other = sizes[(q + 1) % len(sizes)]
            out.append(dict(N=N, m=m, n=n, cont=cont, eps=[0.0, 0.05, 0.3, 0.33][q % 4], other=list(other), same=bool(q % 2)))
        out.append(dict(N=N, m=m, n=n, cont=bool(q % 2), eps=0.1, other=[N, m, n], same=False, again="rewritten"))
        out.append(dict(N=N, m=m, n=n, cont=bool(q % 2), eps=0.1, other=list(other), same=False, again="namesake"))
    return out


def rounded(ctx, got, v):
    """got is v rounded to one decimal."""
    if ctx.symbolic:
        g, x = E.z(got), E.z(v)
        return z3.And(z3.IsInt(z3.ToReal(g) * 10 if g.is_int() else g * 10), g - x <= z3.RealVal("1/20"), x - g <= z3.RealVal("1/20"))
    return abs(got * 10 - round(got * 10)) < 1e-6 and abs(got - v) <= 0.05 + 1e-9


def load(ctx, w, name, N, m, n, cont, eps, tag):
    c = [ctx.real("%sc_%d" % (tag, j)) for j in range(n)]
    A = [[[ctx.real("%sA_%d_%d_%d" % (tag, s, i, j)) for j in range(n)] for i in range(m)] for s in range(N)]
    b = [ctx.real("%sb_%d" % (tag, i)) for i in range(m)]
    w.put(name, [[n, m, N], c] + [A[s][i] for s in range(N) for i in range(m)] + [b])
    return w.get("src.instance.ChanceKnapInstance", "ChanceKnapInstance")(name, cont, eps), A, b, c


def verify(ctx, inst, A, b, c, N, m, n, cont, eps, stem):
    ctx.check(int(inst.get_nb_vars()) == n and int(inst.get_nb_scenarios()) == N, "number of variables or scenarios")
    vt = list(inst.get_var_type())
    ctx.check(len(vt) == n and all(bool(t) == cont for t in vt), "variable types")
    lb, ub = list(inst.get_var_lb()), list(inst.get_var_ub())
    ctx.check(len(lb) == n and len(ub) == n, "variable bounds missing")
    if cont:
        ctx.check(all(float(v) == 0 for v in lb) and all(float(v) == 1 for v in ub), "continuous variables are not in [0,1]")
    else:
        ctx.check(all(float(v) <= 0 for v in lb) and all(float(v) >= 1 for v in ub), "binary variables are restricted")
    ctx.check(float(inst.get_epsilon()) == eps, "epsilon")
    pr = [float(p) for p in inst.get_proba()]
    ctx.check(len(pr) == N and all(abs(p - 1.0 / N) < 1e-12 for p in pr), "probabilities are not equal or do not sum to one")
    ctx.check(inst.get_file_name() == stem, "instance name")
    cv = inst.get_vector_c()
    ctx.check(tuple(cv.shape) == (n,), "objective length")
    for j in range(n):
        ctx.check(rounded(ctx, cv[j], c[j]), "objective coefficient is not that of the file rounded to one decimal")
    AA, bb = inst.get_matrices_A(), inst.get_vectors_b()
    ctx.check(tuple(AA.shape) == (N, m, n) and tuple(bb.shape) == (N, m), "shape of the constraint data")
    for s in range(N):
        ctx.check(int(inst.get_nb_constraints(s)) == m, "number of constraints")
        As, bs = inst.get_matrix_A(s), inst.get_vector_b(s)
        ctx.check(tuple(As.shape) == (m, n) and tuple(bs.shape) == (m,), "shape of a scenario's constraints")
        for i in range(m):
            for got in (bs[i], bb[s, i]):
                ctx.check(rounded(ctx, got, b[i]), "right-hand side is not that of the file rounded to one decimal")
            for j in range(n):
                for got in (As[i, j], AA[s, i, j]):
                    ctx.check(rounded(ctx, got, A[s][i][j]), "coefficient is not that of the scenario's own row rounded to one decimal")


def harness(ctx, cfg):
    w = World(ctx)
    N, m, n, cont, eps = cfg["N"], cfg["m"], cfg["n"], cfg["cont"], cfg["eps"]
    i1, A, b, c = load(ctx, w, "/data/one.csv", N, m, n, cont, eps, "f_")
    verify(ctx, i1, A, b, c, N, m, n, cont, eps, "one")
    oN, om, on = cfg["other"]
    if cfg["same"]:
        i2 = w.get("src.instance.ChanceKnapInstance", "ChanceKnapInstance")("/data/one.csv", not cont, 0.5)
        verify(ctx, i2, A, b, c, N, m, n, not cont, 0.5, "one")
    elif cfg.get("again"):
        # another file of the same name, or the same file with new contents
        path = "/data/one.csv" if cfg["again"] == "rewritten" else "/elsewhere/one.csv"
        i2, A2, b2, c2 = load(ctx, w, path, oN, om, on, not cont, 0.5, "g_")
        verify(ctx, i2, A2, b2, c2, oN, om, on, not cont, 0.5, "one")
    else:
        i2, A2, b2, c2 = load(ctx, w, "/x/other-file.csv", oN, om, on, not cont, 0.5, "g_")
        verify(ctx, i2, A2, b2, c2, oN, om, on, not cont, 0.5, "other-file")
    # whatever happens to the second instance, the first stays as loaded
    i2.get_matrices_A()[0, 0, 0] = -7.0
    i2.get_vectors_b()[0, 0] = -7.0
    i2.get_vector_c()[0] = -7.0
    i2.epsilon = 0.9
    verify(ctx, i1, A, b, c, N, m, n, cont, eps, "one")
