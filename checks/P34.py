"""P34: the iteration log of the adaptive method is complete and belongs to its run."""
from .e2e import *
from . import e2e
from .P03 import variants
from .P27 import near, shown

FUNCTIONS = ["Informer.store_iteration_info", "AdaptivePartitioner.write_iteration_details"] + e2e.FUNCTIONS
SOURCES = ["src/Informer.py"] + e2e.SOURCES
ASSUMPTIONS = e2e.ASSUMPTIONS + ["time passes only while models are built and solved", "shown values are rounded to three decimals"]
OPTS = dict(nl="mono")
BUDGET = dict(quick=120)


def bounds(tier):
    return "N<=4, n=2 (binary) or N=3, n=1 (continuous), m=1, budget 1, every option variant of P03, up to %d partitioned problems, arbitrary data and " \
        "durations, stop at the time limit; a second run after the first" % (1 if tier == "quick" else 2)


def configs(tier):
    out = []
    for q, v in enumerate(variants(tier)):
        v = dict(v, solves=1 if tier == "quick" else 2, m=1, clock=True, again=q % 2, perm="id")
        out.append(dict(v, N=3, n=2, eps="0.34", cont=False, unitc=True))
        if v["bigM"] != "belotti":
            out.append(dict(v, N=3, n=1, eps="0.34", cont=True))
        if tier != "quick":
            out.append(dict(v, N=4, n=2, eps="0.25", cont=False, unitc=True))
            out.append(dict(v, N=3, n=2, eps="0.34", cont=False, unitc=True, stop=True))
    return out


class Enough(Exception):
    pass


class Log:
    """Looks at the log of a run whenever a step of the method begins or ends."""

    def __init__(self, sim, ap, begin, stop=False):
        self.sim, self.ap, self.stop = sim, ap, stop
        self.lower = self.splits = 0
        self.begin = begin
        lower, refine = ap.lowerbounder.deterministic_bound, ap.refiner.refine

        def see_lower(*a, **k):
            self.lower += 1
            self.see(2 * self.lower - 1)
            if stop:
                raise Enough()
            return lower(*a, **k)

        def see_refine(*a, **k):
            self.splits += 1
            self.see(2 * self.splits)
            return refine(*a, **k)
        ap.lowerbounder.deterministic_bound, ap.refiner.refine = see_lower, see_refine

    def value(self, cell):
        ctx = self.sim.ctx
        t = ctx.parse_token(cell) if ctx.symbolic and isinstance(cell, str) else None
        return float(cell) if t is None else t

    def see(self, n):
        """n lines; the last one shows the present state."""
        ctx, ap, info = self.sim.ctx, self.ap, self.ap.informer.iteration_info
        ctx.check(len(info) == n, "the log has %s lines than steps of this run" % ("more" if len(info) > n else "fewer"))
        row = info[-1]
        ctx.check(len(row) == 6, "a line of the log has not six values")
        ctx.check(self.value(row[0]) == (n + 1) // 2, "the iteration number of a line is wrong")
        ctx.check(near(ctx, self.value(row[1]), self.sim.now - self.begin), "the time of a line is not the time since the start")
        shown(ctx, self.value(row[2]), -ap.vLB, "a line does not hold the lower bound")
        shown(ctx, self.value(row[3]), -ap.vUB, "a line does not hold the upper bound")
        shown(ctx, self.value(row[4]), ap._compute_gap() * 100, "a line does not hold the gap")
        ctx.check(self.value(row[5]) == len(ap.partition), "a line does not hold the number of subsets")

    def end(self):
        ctx, ap, info = self.sim.ctx, self.ap, self.ap.informer.iteration_info
        n = len(info)
        # (a run stopped by the clock may lack the line of its last step)
        ctx.check(n in (2 * self.lower, 2 * self.lower + 1), "the log does not hold the steps of the run")
        ctx.check(self.lower - self.splits in (0, 1), "steps of the run")
        if n == 2 * self.lower and n:
            # the last step was a lower bound: closed, or out of time
            ctx.check(zor(self.sim.now >= 1000.0, ap._compute_gap() <= ap.gap), "the line of the last step is missing")
        if n:
            shown(ctx, self.value(info[-1][3]), -ap.vUB, "the last line does not hold the final upper bound")
        self.sim.w.dirs.add("/out")
        ap.write_iteration_details("/out/log.csv")
        rows = [r.split(",") for r in self.sim.w.files["/out/log.csv"].replace("\r", "").split("\n") if r]
        ctx.check([[str(v) for v in q] for q in info] == rows, "the file does not hold the log")


def harness(ctx, cfg):
    sim = Sim(ctx, cfg)
    ap, go = adaptive(sim)
    log = Log(sim, ap, 0.0)
    go()
    log.end()
    if cfg.get("again"):
        ctx.assume(len(ap.informer.iteration_info) > 0)
        begin = sim.now
        ap, go = adaptive(sim)
        Log(sim, ap, begin, stop=True)
        try:
            go()
        except Enough:
            pass
    ctx.check(True, "end")
