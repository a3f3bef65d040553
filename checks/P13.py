"""P13: the compiled pairwise violation bounds are correct."""
import numpy as _np

from .common import *
from vf import llvm, pyx, world as W

FUNCTIONS = ["violations.h: computeAllViolations, compute, update, bind, Comp::operator() and std::sort (LLVM IR of clang, regenerated)",
             "violations.pyx: compute_all_violations"]
SOURCES = ["violations.h", "violations.pyx"]
ASSUMPTIONS = ["doubles are exact reals", "coefficients are zero or at least 0.01, and no sum of coefficients of a constraint falls short of its "
               "right-hand side by more than zero and less than 0.01 (data have one decimal)",
               "clang's unoptimised IR stands for the compiled extension"]
OPTS = dict(nl="nl", grid={}, timeout_ms=30000)
MIN = 0.01


def bounds(tier):
    return ("all data: N=2, m=1, n<=3; N=1, m=2, n<=2; N=2, m=2, n=1; N=3, m=1, n=%d; with the data of some rows fixed: N=2, m=2, n=2; N=3, m=1, "
            "n=2; N=1, m=3%s; N=2, m=1, n=18 with one coefficient symbolic (all of std::sort)"
            % (2 if tier == "thorough" else 1, "; N=2, m=1, n=4" if tier == "thorough" else ""))


def configs(tier):
    out = [dict(N=2, m=1, n=1), dict(N=2, m=1, n=2), dict(N=1, m=2, n=1), dict(N=1, m=2, n=2), dict(N=1, m=1, n=2),
           dict(N=3, m=1, n=1), dict(N=2, m=2, n=1), dict(N=2, m=1, n=3), dict(N=3, m=1, n=2, fixed="c"),
           dict(N=2, m=2, n=2, fixed="abc", fixb=[1, 2]), dict(N=1, m=3, n=1, fixed="d"), dict(N=2, m=1, n=18, fixed="big"),
           dict(N=2, m=1, n=18, fixed="big2"), dict(N=2, m=1, n=20, fixed="bigtie")]
    if tier == "thorough":
        out += [dict(N=2, m=2, n=2, fixed="abc"), dict(N=2, m=2, n=2, fixed="ab"), dict(N=2, m=2, n=2, fixed="cd"), dict(N=1, m=3, n=2, fixed="d"),
                dict(N=3, m=1, n=2, fixed="a"), dict(N=2, m=1, n=4, fixed="rhs"), dict(N=2, m=1, n=18, fixed="big3"), dict(N=3, m=1, n=2)]
    return out


def harness(ctx, cfg):
    N, m, n = cfg["N"], cfg["m"], cfg["n"]
    fx = cfg.get("fixed", "")
    FIX = {0: [3.0, 0.0, 2.0, 0.5], 1: [0.0, 4.0, 1.0, 2.0], 2: [5.0, 2.0, 0.0, 1.0], 3: [1.0, 3.0, 2.0, 2.0]}

    def num(name, s, i, j):
        if fx.startswith("big"):
            if fx == "bigtie" and (s, j) != (0, 7):
                return 2.0
            if (s, j) in dict(bigtie=((0, 7),), big=((1, 5),), big2=((0, 11),), big3=((0, 5), (1, 5)))[fx]:
                return ctx.real(name, 0, npf=True)
            return float((7 * j + 3 * s + (j * j) % 5) % 11)
        r = s * m + i
        if r in dict(ab=(1, 2), abc=(1, 2, 3), c=(2,), cd=(0, 3), d=(1,), a=(0,), rhs=(1,)).get(fx, ()):
            return FIX[r][j]
        return ctx.real(name, 0, npf=True)
    import itertools
    A = [[[num("A_%d_%d_%d" % (s, i, j), s, i, j) for j in range(n)] for i in range(m)] for s in range(N)]
    b = [[4.5 if cfg.get("fixb") and s * m + i in cfg["fixb"] else ctx.real("b_%d_%d" % (s, i), 0, npf=True) for i in range(m)]
         for s in range(N)]
    if fx.startswith("big"):
        b = [[float(sum(x for x in A[s][0] if isinstance(x, float)) // 2) + 0.5 * s] for s in range(N)]
    for s in range(N):
        for i in range(m):
            for a in A[s][i]:
                if E.issym(a):
                    ctx.assume(zor(a == 0, a >= MIN))
            if fx.startswith("big"):
                for a in A[s][i]:
                    if E.issym(a):
                        for q in range(int(b[s][i]) + 2):
                            ctx.assume(zor(b[s][i] - q - a <= 0, b[s][i] - q - a >= MIN))
                continue
            for bits in itertools.product((0, 1), repeat=n):
                rest = b[s][i] - dot(A[s][i], bits)
                ctx.assume(zor(rest <= 0, rest >= MIN))
    got = table(ctx, A, b, N, m, n)
    ctx.check(tuple(got.shape) == (N, N, m), "shape of the table")
    if fx.startswith("big"):
        big(ctx, A, b, n, got)
        return
    for s in range(N):
        for t in range(N):
            for i in range(m):
                if s != t:
                    # weak duality: for every lam >= 0 the maximum under one constraint of t is at most
                    # lam*rhs + sum max(0, r - lam*w) - const, with equality for lam = 0 or the ratio of some item
                    for l in range(m):
                        for ok, v in duals(ctx, A[s][i], b[s][i], A[t][l], b[t][l]):
                            ctx.check(ctx.le(got[s, t, i], v), "entry above the maximum under one constraint of t", when=ok)
                    below = [[zor(znot(ok), ctx.le(v, got[s, t, i])) for ok, v in kvertices(ctx, A[s][i], b[s][i], A[t][l], b[t][l])]
                             for l in range(m)]
                    if m == 1:
                        for c in below[0]:
                            ctx.check(c, "entry below the violation of a point satisfying t")
                    else:
                        ctx.check(zor([zand(c) for c in below]), "entry below the maximum under every constraint of t")
                    continue
                ctx.check(ctx.le(got[s, s, i], 0.0), "a diagonal entry is positive")
                # the bound must hold at every point satisfying s; it is enough that it is not below the bounds of the pairs
                pairs = [kmax(ctx, A[s][i], b[s][i], A[s][l], b[s][l]) for l in range(m) if l != i]
                safe = zor([ctx.le(0.0, got[s, s, i])] + [ctx.le(v, got[s, s, i]) for v in pairs])
                x = [ctx.real("x_%d_%d_%d" % (s, i, j), 0, 1, npf=True) for j in range(n)]
                inside = zand([dot(A[s][l], x) <= b[s][l] for l in range(m)])
                ctx.check(zor(safe, znot(inside), dot(A[s][i], x) - b[s][i] <= got[s, s, i] + 1e-6),
                          "a diagonal entry is below the violation of a point satisfying the scenario")


def duals(ctx, r, const, w, cap):
    for j in [None] + list(range(len(r))):
        if j is None:
            ok, lam = True, 0.0
        elif E.issym(w[j]) or E.issym(r[j]):
            ok = w[j] > 0
            lam = E.SymNum(ctx.quotient(E.z(r[j] * 1.0), E.z(w[j] * 1.0)))
        elif w[j] > 0:
            ok, lam = True, r[j] / w[j]
        else:
            continue
        v = lam * cap - const
        for k in range(len(r)):
            if k == j:
                continue
            d = r[k] - lam * w[k]
            v = v + (E.ite(d > 0, d, 0.0) if E.issym(d) else max(0.0, d))
        yield ok, v


def table(ctx, A, b, N, m, n):
    if ctx.symbolic:
        w = World(ctx)
        np = w.shims["numpy"]
        arrA, arrb = np.array(A), np.array(b)
        mach = llvm.Machine(llvm.module(W.REPO))
        got = pyx.load(W.REPO, np, pyx.on_machine(mach))(arrA, arrb)
        for s in range(N):
            for i in range(m):
                ctx.check(zand([ctx.eq(arrb[s, i], b[s][i])] + [ctx.eq(arrA[s, i, j], A[s][i][j]) for j in range(n)]), "the data were modified")
        return got
    A, b = _np.array(A, dtype=float), _np.array(b, dtype=float)
    # memory errors are found by the interpreter, values by the compiled code
    pyx.load(W.REPO, _np, pyx.on_machine(llvm.Machine(llvm.module(W.REPO))))(A.copy(), b.copy())
    from vf import cviol
    A1, b1 = A.copy(), b.copy()
    got = cviol.compute(A1, b1)
    ctx.check(bool((A1 == A).all() and (b1 == b).all()), "the data were modified")
    return got


def big(ctx, A, b, n, got):
    """Many items: the entry is compared with the greedy solution along an order that the checker establishes itself."""
    for s, t in ((0, 1), (1, 0)):
        r, w, cap, const = A[s][0], A[t][0], b[t][0], b[s][0]
        for ok, v in duals(ctx, r, const, w, cap):
            ctx.check(ctx.le(got[s, t, 0], v), "entry above the maximum", when=ok)
        ctx.check(zor([zand(ok, ctx.eq(got[s, t, 0], v)) for ok, v in duals(ctx, r, const, w, cap)]), "entry is not the maximum")
