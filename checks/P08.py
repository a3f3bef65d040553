"""P08: merging preserves the partition."""
import itertools

from vf import npshim

from .common import *

FUNCTIONS = ["Merger.merge_all", "Merger.merge_feasible", "Merger.merge", "Merger._merge_two_subsets_in_partition", "Merger._delete_subsets",
             "Merger._single_subset_margin", "PartitionChanceKnapInstance.get_matrix_A", "PartitionChanceKnapInstance.get_vector_b"]
SOURCES = ["src/Merger.py", "src/instance/PartitionChanceKnapInstance.py"]
ASSUMPTIONS = ["floats are exact reals", "with two variables the norm of a row is abstracted by its basic bounds (counterexamples are exact)"]


def bounds(tier):
    return "N<=%d scenarios in up to %d subsets, every choice and order of candidate subsets, every number mu+1 of merged candidates, arbitrary " \
        "data; two merges in a row with the same merger; margins over m<=2 constraints and n<=2 variables at an arbitrary point" % (
            (6, 4) if tier == "quick" else (7, 5))


def configs(tier):
    out = []
    top = 5 if tier == "quick" else 6
    for nb in range(2, top):
        part = [[s for s in range(nb + 2) if s % nb == g][::-1] for g in range(nb)]
        out.append(dict(kind="all", part=part))
        if nb >= 4:
            out.append(dict(kind="pairs", part=part))
    for nb, cand, m, n, mode in ((2, 2, 1, 1, "nl"), (3, 2, 1, 1, "nl"), (3, 3, 1, 1, "nl"), (3, 3, 1, 2, "nl"), (4, 3, 1, 1, "nl"),
                                 (3, 3, 2, 1, "nl"), (4, 4, 1, 1, "nl"))[:7 if tier == "quick" else 9]:
        part = [[s for s in range(nb + 1) if s % nb == g] for g in range(nb)]
        for cs in itertools.combinations(range(nb), cand):
            for mu in range(1, cand):
                out.append(dict(kind="feasible", part=part, cand=list(cs), mu=mu, m=m, n=n, _opts=dict(nl=mode)))
    return out


def check_merge(ctx, before, inner, snap, res, nb, chosen, mg, N):
    lo = min(chosen)
    want = [sorted(sum((before[g] for g in chosen), [])) if g == lo else sorted(before[g])
            for g in range(len(before)) if g == lo or g not in chosen]
    is_partition(ctx, res, N, "merged partition", int(nb))
    ctx.check([sorted(int(s) for s in q) for q in res] == want, "merged partition is not the union of the chosen subsets in place of the first one")
    ctx.check([list(q) for q in inner] == snap, "a scenario list shared with other components was modified")
    ctx.check(sorted(int(q) for q in mg.deleted_subsets) == sorted(g for g in chosen if g != lo), "deleted subsets are not those merged away")
    ctx.check([int(q) for q in mg.target_subsets] == [lo], "target subset is not the smallest chosen position")


def harness(ctx, cfg):
    w = World(ctx)
    part = cfg["part"]
    N = sum(len(q) for q in part)
    m, n = cfg.get("m", 1), cfg.get("n", 1)
    inst, A, b, c = sym_instance(w, N, m, n, True, 0.34)
    P = w.get("src.instance.PartitionChanceKnapInstance", "PartitionChanceKnapInstance")(inst)
    P.load_partition(len(part), [list(q) for q in part])
    mg = w.get("src.Merger", "Merger")(inst, P)
    work = [list(q) for q in part]
    inner, snap, before = list(work), [list(q) for q in work], [list(q) for q in work]
    if cfg["kind"] == "all":
        # choose the candidates and their order; merge twice with the same merger
        for rnd in range(2):
            if len(work) < 2:
                break
            before = [list(q) for q in work]
            inner, snap = list(work), [list(q) for q in work]
            size = 2 + ctx.choice(len(work) - 1, "size")
            rest, chosen = list(range(len(work))), []
            for _ in range(size):
                chosen.append(rest.pop(ctx.choice(len(rest), "cand")))
            arg = list(chosen)
            res, nb = mg.merge_all(work, arg)
            ctx.check(arg == chosen, "the list of candidates was modified")
            check_merge(ctx, before, inner, snap, res, nb, chosen, mg, N)
            work = res
    elif cfg["kind"] == "pairs":
        rest, chosen = list(range(len(work))), []
        for _ in range(4):
            chosen.append(rest.pop(ctx.choice(len(rest), "cand")))
        (a1, b1), (a2, b2) = chosen[:2], chosen[2:]
        res, nb = mg.merge(work, [a1, a2], [b1, b2])
        is_partition(ctx, res, N, "pairwise merged partition", int(nb))
        want = []
        for g in range(len(before)):
            if g in (max(a1, b1), max(a2, b2)):
                continue
            q = before[g]
            for u, v in ((a1, b1), (a2, b2)):
                if g == min(u, v):
                    q = before[u] + before[v]
            want.append(sorted(q))
        ctx.check([sorted(q) for q in res] == want, "pairwise merge does not unite the given pairs")
        ctx.check([list(q) for q in inner] == snap, "a scenario list shared with other components was modified")
        ctx.check(sorted(int(q) for q in mg.deleted_subsets) == sorted([max(a1, b1), max(a2, b2)]), "deleted subsets are wrong")
        ctx.check(sorted(int(q) for q in mg.target_subsets) == sorted([min(a1, b1), min(a2, b2)]), "target subsets are wrong")
    else:
        x = [ctx.real("x_%d" % j, 0, 1, npf=True) if m * n == 1 and len(cfg["cand"]) < 4 or n == 2 else 0.5 for j in range(n)]
        cand, mu = cfg["cand"], cfg["mu"]
        arg = list(cand)
        res, nb = mg.merge_feasible(work, w.shims["numpy"].array(x), arg, mu)
        chosen = [int(q) for q in mg.target_subsets] + [int(q) for q in mg.deleted_subsets]
        ctx.check(arg == cand, "the list of candidates was modified")
        ctx.check(len(chosen) == mu + 1 and len(set(chosen)) == mu + 1 and set(chosen) <= set(cand), "not exactly mu+1 candidates were merged")
        check_merge(ctx, before, inner, snap, res, nb, chosen, mg, N)
        norm = npshim.norm_of if ctx.symbolic else (lambda r: sum(v * v for v in r) ** 0.5)

        def margin(g):
            out = []
            for s in part[g]:
                for i in range(m):
                    r = A[s][i]
                    nr = norm(r)
                    d = b[i] - dot(r, x)
                    zero = zand([v == 0 for v in r])
                    if ctx.symbolic:
                        out.append(d if ctx.fork(zero) else d / nr)
                    else:
                        out.append(d / nr if nr else d)
            return out
        ms = {g: margin(g) for g in cand}
        if ctx.symbolic:
            mn = {g: E.smin(v) for g, v in ms.items()}
        else:
            mn = {g: min(v) for g, v in ms.items()}
        for p in chosen:
            for q in cand:
                if q not in chosen:
                    ctx.check(ctx.le(mn[q], mn[p]), "a merged candidate has a smaller satisfaction margin than one left out")
