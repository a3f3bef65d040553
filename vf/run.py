"""Runs one check: explores all configurations, replays counterexamples on the real code, writes the evidence file."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")


def load_check(pid):
    return importlib.import_module("checks." + pid)


def _in_vf(tb):
    """True if the exception was raised by our own stand-ins rather than by repository code."""
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and os.path.abspath(last).startswith(VERIF + "/")


PATH_LIMIT = 150


class alarm:
    """Bounds the running time of one path (a loop that never branches would otherwise run for ever)."""

    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        from . import engine as E

        def ring(*_):
            raise E.Inconclusive("path ran longer than %d s" % self.secs)
        self.old = signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, self.secs, 1.0)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def guarded(mod, cfg):
    """The harness, with exceptions of the repository's code turned into violations."""
    from . import engine as E, grb

    def fn(ctx):
        try:
            with alarm(PATH_LIMIT):
                mod.harness(ctx, cfg)
        except RecursionError:
            raise
        except Exception as ex:
            own = _in_vf(ex.__traceback__) and not isinstance(ex, (grb.GurobiError, ZeroDivisionError, FileNotFoundError)) \
                and not getattr(ex, "repo_fault", False)
            if own or not getattr(mod, "EXC_IS_VIOLATION", True):
                raise
            if isinstance(ex, (ImportError, SyntaxError)):
                raise
            loc = traceback.extract_tb(ex.__traceback__)[-1]
            ctx.fail("raises %s: %s" % (type(ex).__name__, str(ex)[:120]),
                     info="%s in %s" % (loc.name, os.path.basename(loc.filename)))
    return fn


def work(args):
    pid, ci, cfg, prefixes, max_s, wit, deadline = args
    from . import engine as E
    t0 = time.time()
    if deadline is not None:
        max_s = max(1.0, min(max_s, deadline - t0))
    mod = load_check(pid)
    opts = dict(getattr(mod, "OPTS", {}))
    opts.update(cfg.get("_opts", {}))
    ex = E.Explorer(guarded(mod, cfg), **opts)
    out = dict(ci=ci, error=None)
    try:
        pend = ex.explore(prefixes, max_s=max_s, want_witness=wit)
        out["pending"] = list(pend)
    except Exception:
        out["pending"] = []
        out["error"] = traceback.format_exc()[-3000:]
    except E.EngineStop as e:
        out["pending"] = []
        out["error"] = repr(e)
    out.update(stats=ex.stats, violations=ex.violations, errors=ex.errors, witnesses=ex.witnesses, t=time.time() - t0)
    return out


# ---------------------------------------------------------------- replay
def replay_one(pid, cfg, case):
    """Runs the harness on concrete values: returns (status, message)."""
    from . import engine as E
    mod = load_check(pid)
    res = ("mismatch", "no model")
    for values in case["models"]:
        ctx = E.ConcreteCtx(values, case["choices"], case.get("extra"))
        E.CTX = ctx
        try:
            guarded(mod, cfg)(ctx)
            r = ("ok", "held on concrete values (%d assertions)" % ctx.checked) if ctx.checked else ("mismatch", "no assertion reached")
        except E.FoundViolation:
            return ("violated", "; ".join(ctx.failed))
        except E.ReplayMismatch as e:
            r = ("mismatch", str(e))
        except E.EngineStop as e:
            r = ("mismatch", "%s: %s" % (type(e).__name__, e))
        except Exception:
            r = ("error", traceback.format_exc()[-1500:])
        if res[0] == "mismatch" or r[0] == "ok":
            res = r
    return res


def replay_batch(pid, items, timeout=300):
    """[(cfg, case)] -> [(status, msg)], in a fresh interpreter (real numpy, floats, compiled code)."""
    if not items:
        return []
    p = subprocess.run([sys.executable, "-m", "vf.run", "--replay-stdin", pid], cwd=VERIF, input=json.dumps(items),
                       text=True, capture_output=True, timeout=timeout)
    for line in p.stdout.splitlines():
        if line.startswith("REPLAY "):
            return json.loads(line[7:])
    return [("error", (p.stderr or p.stdout)[-1500:])] * len(items)


def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get("property") == pid and k.get("status") == "open"]


def source_info(mod):
    out = {}
    for rel in getattr(mod, "SOURCES", []):
        p = os.path.join(REPO, rel)
        if os.path.isfile(p):
            out[rel] = hashlib.sha256(open(p, "rb").read()).hexdigest()[:12]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay-stdin", action="store_true")
    ap.add_argument("--replay", help="replay a recorded violation file")
    ap.add_argument("--only", type=int, help="run one configuration")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay_stdin:
        items = json.load(sys.stdin)
        out = [replay_one(a.pid, cfg, case) for cfg, case in items]
        print("REPLAY " + json.dumps(out))
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        st = replay_one(a.pid, r["cfg"], r["case"])
        print(st)
        return 1 if st[0] == "violated" else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    mod = load_check(a.pid)
    cfgs = list(mod.configs(tier))
    budget = a.budget or getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 2400)
    deadline = t0 + budget
    slice_s = 6.0
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    agg = dict(paths=0, pruned=0, forks=0, assertions=0, discharged=0, queries=0, solver_s=0.0, reached=0)
    per = [dict(paths=0, reached=0, bad=None) for _ in cfgs]
    violations, errors, witnesses = [], [], []
    left = [0]
    ctxm = mp.get_context("fork")
    rng = random.Random(seed)

    def run(queue, cfgs, until):
        """Explores the queued (configuration, prefixes); returns the violations found and what was dropped on an early stop."""
        found, dropped = [], []
        queue = list(queue)
        stop = False
        nerr = 0
        with ctxm.Pool(nproc, maxtasksperchild=40) as pool:
            running = []
            while queue or running:
                if stop:
                    dropped += queue
                    queue = []
                while queue and len(running) < nproc * 2:
                    ci, pre = queue.pop(0)
                    if time.time() > until:
                        left[0] += len(pre)
                        continue
                    if per[ci]["bad"]:
                        continue
                    wit = 2 if len(pre) == 1 and pre[0] == () else (1 if rng.random() < 0.05 else 0)
                    running.append(pool.apply_async(work, ((a.pid, ci, cfgs[ci], pre, slice_s, wit, until),)))
                done = [r for r in running if r.ready()]
                if not done:
                    time.sleep(0.01)
                    if time.time() > until + 400:
                        errors.append((None, "a worker did not come back"))
                        pool.terminate()
                        break
                    continue
                for r in done:
                    running.remove(r)
                    o = r.get()
                    for k in agg:
                        agg[k] += o["stats"][k]
                    p = per[o["ci"]]
                    p["paths"] += o["stats"]["paths"]
                    p["reached"] += o["stats"]["reached"]
                    for e in o["errors"] + ([o["error"]] if o["error"] else []):
                        p["bad"] = e
                        nerr += 1
                    for v in o["violations"]:
                        found.append((o["ci"], v))
                    for wv in o["witnesses"]:
                        witnesses.append((o["ci"], wv))
                    if len(found) >= 6 or nerr > max(20, len(cfgs)):
                        stop = True
                    pend = o["pending"]
                    if pend:
                        n = max(1, min(len(pend), nproc if len(queue) < 4 * nproc else 1))
                        for k in range(n):
                            chunk = pend[k::n]
                            if chunk:
                                queue.append((o["ci"], chunk))
        return found, dropped

    def explore(todo, cfgs, until):
        """Explores configurations `todo` and settles their counterexamples, until one is confirmed or all is explored."""
        queue = [(i, [()]) for i in todo]
        every = []
        while queue:
            found, queue = run(queue, cfgs, until)
            settle(found)
            every += found
            if confirmed or not found:
                break
            queue = [q for q in queue if not per[q[0]]["bad"]]
        for ci, pre in queue:
            left[0] += len(pre)
            if not confirmed and not per[ci]["bad"]:
                per[ci]["bad"] = "not explored: too many configurations failed"
        return every

    def settle(found):
        """Replays counterexamples on the real code."""
        for ci, v in found[12:]:
            if not per[ci]["bad"]:
                per[ci]["bad"] = "counterexample not replayed: " + v["msg"]
        sts = replay_batch(a.pid, [(cfgs[ci], v) for ci, v in found[:12]])
        for (ci, v), st in zip(found[:12], sts):
            if st[0] == "violated":
                sig = json.dumps(cfgs[ci], sort_keys=True, default=str) + " :: " + v["msg"]
                k = [k for k in known_findings(a.pid) if k["match"] in sig]
                (known if k else confirmed).append((ci, v, st, k))
            else:
                per[ci]["bad"] = "counterexample did not reproduce: %s [%s] values %s choices %s -> %s" % (
                    v["msg"], v.get("info"), v["models"][:1], v["choices"], st)

    confirmed, known = [], []
    todo = [i for i in range(len(cfgs)) if a.only is None or i == a.only]
    violations = explore(todo, cfgs, deadline)
    # configurations left undecided with abstracted products are decided again with exact products
    mono = [i for i in todo if per[i]["bad"] and dict(getattr(mod, "OPTS", {}), **cfgs[i].get("_opts", {})).get("nl") == "mono"]
    if mono and not confirmed:
        was = {i: per[i]["bad"] for i in mono}
        exact = list(cfgs)
        for i in mono:
            per[i]["bad"] = None
            exact[i] = dict(cfgs[i], _opts=dict(cfgs[i].get("_opts", {}), nl="nl"))
        keep = left[0]
        left[0] = 0
        more = explore(mono, exact, time.time() + (150 if tier == "quick" else 900))
        if left[0]:
            for i in mono:
                per[i]["bad"] = per[i]["bad"] or was[i] + " (and not decided with exact products)"
        left[0] = keep
        violations = violations + more
    for i in todo:
        if per[i]["bad"]:
            errors.append((cfgs[i], per[i]["bad"]))
    unexplored = left[0]
    explore_s = time.time() - t0
    # vacuity: every configuration must reach its assertions
    for i, p in enumerate(per):
        if i in todo and not p["reached"] and not p["bad"] and not cfgs[i].get("_may_be_vacuous") \
                and not violations and not unexplored:
            errors.append((cfgs[i], "vacuous: no path reaches an assertion"))
    validated, wit_bad = 0, []
    rng.shuffle(witnesses)
    wsel = witnesses[:24 if tier == "quick" else 200]
    if not confirmed:
        for (ci, w_), st in zip(wsel, replay_batch(a.pid, [(cfgs[ci], w_) for ci, w_ in wsel], 900)):
            if st[0] == "ok":
                validated += 1
            else:
                wit_bad.append((cfgs[ci], st))
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    level = getattr(mod, "LEVEL", "model_checking")
    samples = []
    for ci, w_ in wsel[:3]:
        samples.append(dict(configuration=cfgs[ci], values=w_["models"][0], choices=w_["choices"]))
    if not samples:
        samples = [dict(configuration=c) for c in cfgs[:3]]
    wall = time.time() - t0
    cov = dict(
        states=agg["paths"], transitions=agg["forks"], traces_validated_against_impl=validated, samples=samples,
        exhaustive=not unexplored and not confirmed and not errors, configurations=len(cfgs), pruned_paths=agg["pruned"],
        assertions_checked=agg["assertions"], assertions_discharged=agg["discharged"],
        solver_queries=agg["queries"], solver_seconds=round(agg["solver_s"], 2), unexplored_prefixes=unexplored,
        paths_reaching_assertions=agg["reached"], functions_encoded=getattr(mod, "FUNCTIONS", []),
        source_hashes=source_info(mod), bounds=mod.bounds(tier) if hasattr(mod, "bounds") else getattr(mod, "BOUNDS", ""),
        explanation="states = symbolic paths executed to the end, transitions = branch points where both outcomes are "
                    "satisfiable, traces_validated_against_impl = concrete instances of paths replayed on the real code "
                    "(real numpy and floats) with all assertions holding",
        witness_mismatches=len(wit_bad), inconclusive=len(errors))
    ev = dict(property=a.pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(confirmed))
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d configurations, %d paths (%d reach assertions), %d forks, %d assertions, %d solver queries "
          "(%.1f s), %d concrete replays ok, %d mismatching, wall %.1f s%s" % (
              a.pid, tier, len(cfgs), agg["paths"], agg["reached"], agg["forks"], agg["assertions"], agg["queries"],
              agg["solver_s"], validated, len(wit_bad), wall, "" if not unexplored else ", %d prefixes unexplored" % unexplored))
    if a.v:
        for b in wit_bad[:5]:
            print("  witness mismatch:", b)
    for ci, v, st, k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.pid, k[0]["what"]))
    if confirmed:
        seen = set()
        for n, (ci, v, st, _) in enumerate(confirmed):
            if v["msg"] in seen:
                continue
            seen.add(v["msg"])
            path = os.path.join(rdir, "%s-%d.json" % (a.pid, n))
            with open(path, "w") as f:
                json.dump(dict(property=a.pid, cfg=cfgs[ci], message=v["msg"], info=v.get("info"), observed=st[1],
                               case=dict(models=v["models"], choices=v["choices"], extra=v.get("extra"))), f, indent=1, default=str)
            print("  counterexample: %s [%s] config %s values %s" % (v["msg"], v.get("info"), cfgs[ci], v["models"][0]))
            print("VIOLATION property=%s replay=%s" % (a.pid, path))
        return 1
    for c, e in errors[:3]:
        print("INCONCLUSIVE: cfg %s\n%s" % (c, str(e)[-1500 if a.v else -400:]))
    # what was explored held; with too much left undecided there is no answer
    return 2 if len(errors) > max(0.4 * len(todo), 0) else 0


if __name__ == "__main__":
    sys.exit(main())
