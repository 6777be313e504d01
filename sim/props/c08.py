"""Parallel evaluation equals sequential evaluation under any worker schedule."""
from ..campaign import *
from ..sched import SimStop
from ..simos import SimOS
from .. import seams
ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 1700, "thorough": 150000}
RULE = ("A run evaluates sets of 1 to 1500 locations with 2 to 7 simulated workers connected by pipes of 64 B to 64 KiB: a seeded scheduler decides who runs after "
        "every start, write, read, poll and sleep, objectives take simulated time, and workers fail to start, stall, raise, or die before, while and after "
        "working or reporting (also half-way through a message). Evaluations go through SingleObjective or through whole optimization runs. The judge compares "
        "with the values of a one-worker evaluation, counts the workers and the simultaneous evaluations, and reports a deadlock when nobody can continue.")
REAL = ["GPyOpt (SingleObjective, util.general.spawn, the optimization loop)", "pickle framing of multiprocessing messages"]
STUB = ["multiprocessing.Process/Pipe/wait (simulated processes, handles and pipes)", "scheduler", "objective", "clock", "surrogate: TinyGP"]
ASSUMPTIONS = ["workers have fork semantics (arguments are copied, handles are inherited)", "a pipe write of any size may be interleaved with the other processes at every partial write"]


class Obj:
    """the objective as every simulated process sees it"""
    def __init__(self, ctx, dom, os_):
        self.base = Objective(ctx, dom)
        self.ctx, self.os, self.dom = ctx, os_, dom
        self.log = []               # (process, row)
        self.durs = [1.0]
        self.flaky = None           # raise in workers only at these rows
        self.always = None          # raise everywhere at this row
        self.mutates = False
        self.shape = "(1,1)"

    def value(self, row):
        return self.base.value(row)

    def dur(self, row):
        return self.durs[int(abs(float(np.sum(row)) * 1000)) % len(self.durs)]

    def __call__(self, x):
        x = np.asarray(x)
        if x.shape != (1, self.dom.dim):
            self.ctx.bad("objective-argument", "the objective was called with shape %s" % (x.shape,))
        row = np.array(x, float).reshape(-1)
        self.log.append((self.os.proc().name, row))
        self.os.busy(self.dur(row))
        key = row.tobytes()
        if self.always == key or (self.flaky == key and self.os.in_child()):
            self.ctx.fault("objective:raises-in-" + ("worker" if self.os.in_child() else "parent"))
            raise InjectedKey("objective at %s" % row.tolist())
        y = self.value(row)
        if self.mutates:
            x[...] = -88.0
        return {"scalar": y, "(1,)": np.array([y]), "(1,1)": np.array([[y]])}[self.shape]


START_ERRORS = ("EAGAIN", "ENOMEM", "daemonic", "pickle", "memory")
CRASHES = ("begin", "row", "before-send", "mid-send", "end")


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx, kinds=("cont", "mixed", "finite"), max_dim=3)
    cap = ch.pick([65536, 4096, 512, 64])
    plans = {}
    os_ = SimOS(ctx, ctx.clock, capacity=cap, plans=lambda k: plans.get(k, {}))
    f = Obj(ctx, dom, os_)
    seams.W.os = os_
    f.durs = [ch.pick([1.0, 0.25, 3.0, 0.5, 0.0]) for _ in range(3)]
    f.mutates = ch.chance(0.1)
    f.shape = ch.pick(["(1,1)", "scalar", "(1,)"])
    n = ch.pick([2, 3, 4, 5, 7, 1, 2, 3, 12])
    ctx.config.update(workers=n, capacity=cap)

    def guarded(what, fn, allow=()):
        try:
            return api(ctx, what, fn, allow)
        except (SimStop, Violation) as e:
            if os_.sched.stopped:
                raise Violation("blocked", "%s: %s" % (what, os_.sched.stopped))
            raise

    def arm(first, rows):
        """faults of the workers started from now on"""
        plans.clear()
        f.flaky = f.always = None
        kind = ch.weighted([(5, None), (4, "crash"), (1, "start"), (2, "stall"), (2, "flaky"), (1, "always")])
        if kind is None:
            return None
        if kind in ("flaky", "always"):
            r = rows[ch.draw(len(rows))]
            setattr(f, kind, np.asarray(r, float).tobytes())
            return kind
        for j in range(ch.between(1, 2)):
            k = first + ch.draw(min(n, max(1, len(rows))))
            if kind == "crash":
                c = ch.pick(CRASHES)
                plans[k] = dict(crash=c, at=ch.draw(3))
            elif kind == "start":
                plans[k] = dict(start=ch.pick(list(START_ERRORS)))
            else:
                plans[k] = dict(stall=ch.pick([50.0, 1e5]))
        return kind

    def judge(kind, rows, log0, faults0, where):
        """counters after one evaluation of `rows`"""
        log = f.log[log0:]
        fired = {k for k, v in ctx.faults.items() if v > faults0.get(k, 0) and (k.startswith("worker:crash") or k in ("worker:start-failed", "objective:raises-in-worker"))} - {"worker:crash-after-report"}
        require(os_.peak_busy <= n and os_.peak_alive <= max(n, 0), "too-many-workers",
                "%s: %d workers alive and %d evaluations at once, %d configured" % (where, os_.peak_alive, os_.peak_busy, n))
        parent = [r for p, r in log if p == "parent"]
        if kind == "always":
            pass
        elif not fired:
            require(len(log) == len(rows), "evaluated-more-than-once", "%s: %d calls of the objective for %d locations and no worker failed" % (where, len(log), len(rows)))
            if n > 1 and all(f.dur(np.asarray(r, float)) > 0 for r in rows):
                require(os_.peak_busy == min(n, len(rows)), "too-few-workers", "%s: at most %d evaluations at once, %d configured for %d locations" % (where, os_.peak_busy, n, len(rows)))
        else:
            require(len(parent) == len(rows) and all(np.array_equal(a, b) for a, b in zip(parent, rows)), "no-fallback",
                    "%s: workers failed (%s) but the calling process evaluated %d of %d locations" % (where, sorted(fired), len(parent), len(rows)))
            ctx.probe("fallback")
        os_.peak_busy = 0
        os_.peak_alive = len(os_.alive())

    if ch.chance(0.75):
        # SingleObjective directly
        so = GPyOpt.core.task.SingleObjective(f, n)
        for rep in range(ch.between(1, 3)):
            m = ch.weighted([(8, ch.between(1, 6)), (8, ch.between(2, 24)), (1, 300), (1, 1500)])
            if m > 100 and cap < 4096:
                m = 120
            X = dom.draw(rs, m)
            keep = X.copy()
            kind = arm(os_.starts, X)
            log0, faults0 = len(f.log), dict(ctx.faults)
            r, v = guarded("evaluate", lambda: so.evaluate(X), (InjectedKey,) if kind == "always" else ())
            where = "evaluation %d (%d locations, %d workers)" % (rep, m, n)
            if kind == "always":
                require(r == "err" and isinstance(v, InjectedKey), "error-lost", "%s: the objective raises, the caller got %r" % (where, v))
            else:
                require(r == "ok", "error", "%s: %r" % (where, v))
                Y = v[0]
                want = np.array([[f.value(x)] for x in keep])
                require(isinstance(Y, np.ndarray) and Y.shape == (m, 1), "shape", "%s: outputs have shape %s" % (where, np.shape(Y)))
                if not np.array_equal(Y, want):
                    i = int(np.argmax(Y[:, 0] != want[:, 0]))
                    raise Violation("wrong-output", "%s: output %d is %r, a one-worker evaluation gives %r" % (where, i, Y[i, 0], want[i, 0]))
                require(len(np.atleast_1d(np.asarray(v[1], float).reshape(-1))) == m, "costs", "%s: %s costs" % (where, np.shape(v[1])))
            require(np.array_equal(X, keep), "inputs-changed", "%s: the caller's locations were changed" % where)
            judge(kind, keep, log0, faults0, where)
        return
    # whole optimization runs with several workers
    sp = gen_spec(ctx, dom, evaluators=("random", "thompson_sampling"), optimizers=False, max_batch=5)
    sp["cores"] = n
    sp["n_init"] = ch.between(1, 6)
    sp["maximize"] = sp.maximize
    sign = -1.0 if sp.maximize else 1.0
    sp["lazy"] = ch.chance(0.5)
    kind = arm(0, [dom.draw(rs, 1)[0]])
    if kind in ("always", "flaky"):
        f.always = f.flaky = kind = None
    log0, faults0 = 0, {}
    r, bo = guarded("build", lambda: build(ctx, dom, f, sp))
    if bo.Y is not None:
        judge(kind, list(bo.X), log0, faults0, "initial design")

    def compare(where):
        want = np.array([[sign * f.value(x)] for x in bo.X])
        require(bo.Y.shape == want.shape and np.array_equal(bo.Y, want), "wrong-output", "%s: recorded %s, a one-worker evaluation gives %s" % (where, bo.Y[:, 0].tolist(), want[:, 0].tolist()))
    if bo.Y is not None:
        compare("initial design")
    else:
        r, v = guarded("first run", lambda: bo.run_optimization(0, eps=-1))
        judge(kind, list(bo.X), log0, faults0, "initial design")
        compare("initial design")
    for step in range(ch.between(1, 3)):
        kind = arm(os_.starts, list(bo.X))
        if kind in ("always", "flaky"):
            f.always = f.flaky = kind = None
        log0, faults0, n0 = len(f.log), dict(ctx.faults), len(bo.X)
        r, v = guarded("run", lambda: bo.run_optimization(1, eps=-1))
        rows = list(np.asarray(bo.X[n0:], float))
        require(len(rows) == (sp.batch or 1), "batch", "%d rows recorded for a batch of %s" % (len(rows), sp.batch))
        judge(kind, rows, log0, faults0, "step %d" % step)
        compare("step %d" % step)
