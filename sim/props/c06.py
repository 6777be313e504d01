"""Runs respect their iteration, time and tolerance budgets exactly."""
from ..campaign import *
ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 60000}
RULE = ("A run is a sequence of optimization runs of one optimizer under a simulated clock: durations of the objective and of the surrogate are dyadic numbers "
        "(including zero), limits are None, zero, infinite, hit exactly or in between, tolerances coincide with distances of the domain, surrogates fail to "
        "be fitted at a chosen update, objectives fail and the run is resumed, or somebody sets the wall clock. The judge replays the budget from the log of "
        "evaluations and clock readings.")
REAL = ["GPyOpt", "scipy L-BFGS-B"]
STUB = ["surrogate: TinyGP behind BOModel", "objective", "clock", "OS entropy"]
ASSUMPTIONS = ["when somebody sets the wall clock during a run only termination and the iteration limit are checked"]


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx, kinds=("finite", "cont", "mixed", "bandit"), max_dim=2)
    sp = gen_spec(ctx, dom, optimizers=False, evaluators=("sequential", "sequential", "random", "local_penalization", "thompson_sampling"))
    b = sp.batch or 1
    durs = [ch.pick([0.0, 0.25, 1.0, 1.0, 3.5, 64.0]) for _ in range(4)]
    obj = Objective(ctx, dom, duration=lambda k: durs[k % len(durs)])
    lazy = sp.api == "mod" and ch.chance(0.4)
    sp["lazy"] = lazy
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp))
    m = bo.model
    slow = {"update": 0.0, "predict": 0.0, "grad": 0.0, "fmin": 0.0}
    if ch.chance(0.4):
        slow[ch.pick(["update", "fmin"])] = ch.pick([0.5, 8.0])
        ctx.probe("slow-surrogate")
    clock = ctx.clock

    def on_query(what):
        if slow[what]:
            clock.advance(slow[what])
    m.on_query = on_query

    for op in range(ch.between(1, 3)):
        max_iter = ch.weighted([(3, 2), (2, 1), (2, 4), (2, 0), (2, None), (1, 7)])
        step_time = sum(durs[:2]) + 1.0
        max_time = ch.pick([np.inf, None, 0, 0.25, 1.0, 2.0, 3.5, 4.5, 7.0, 64.0, 66.25, 1000.0, 9.5, 2 * b * 1.0, float(b)])
        eps = ch.pick([-1.0, -1.0, 1e-8, 0.0, 0.5, 1.0, 2.0])
        ticking = all(d > 0 for d in durs) or slow["update"] > 0
        if max_iter is None and max_time is not None and (not ticking or max_time > 70.0):
            max_time = None if not ticking else 9.5
        stepping = ch.chance(0.12) and max_iter is not None
        fail = ch.weighted([(6, None), (2, "linalg"), (1, "objective")])
        n_start, c_start = len(bo.X), len(obj.calls)
        was_lazy = bo.Y is None
        fired = {}
        if fail == "linalg":
            m.arm(update=ch.between(0, 2), exc="linalg")
        elif fail == "objective":
            obj.plan = {c_start + ch.between(0, 4): ch.pick(["raise", "interrupt"])}
        f0 = sum(v for k, v in ctx.faults.items() if k.startswith("surrogate:linalg"))
        t_call = clock.wall
        if stepping:
            st = dict(k=0)

            def hook(k, row):
                if ch.chance(0.4):
                    d = ch.pick([-3600.0, 3600.0, -1.0, 86400.0])
                    clock.step(d)
                    ctx.fault("clock:step", d)
            obj.hook = hook
        verb = ch.chance(0.2)
        ctx.ev("run", max_iter, max_time, eps)
        r, v = api(ctx, "run", lambda: bo.run_optimization(max_iter=max_iter, max_time=max_time, eps=eps, verbosity=verb))
        obj.hook = None
        disarm(bo, obj)
        if r == "err":
            require(not isinstance(v, InjectedLinAlg), "fit-failure-not-handled", "the surrogate could not be fitted: the run must stop with its results computed, but it raised %r" % (v,))
            ctx.probe("run-aborted")
            continue
        linalg = sum(v for k, v in ctx.faults.items() if k.startswith("surrogate:linalg")) > f0
        calls = obj.calls[c_start:]
        ends = obj.t_end[c_start:]
        t0 = t_call
        if was_lazy:
            calls, t0 = calls[n_start:], ends[n_start - 1]
            ends = ends[n_start:]
        require(len(calls) % b == 0, "partial-step", "%d evaluations with batches of %d" % (len(calls), b))
        S = len(calls) // b
        MI = max_iter if max_iter is not None else (np.inf if max_time is not None else 0)
        MT = max_time if max_time is not None else np.inf
        require(hasattr(bo, "x_opt") and hasattr(bo, "fx_opt") and len(bo.Y_best) == len(bo.Y), "no-results", "the run finished without computing its results")
        require(bo.num_acquisitions == S, "steps-reported", "%s steps reported, %d performed" % (bo.num_acquisitions, S))
        require(S <= MI, "too-many-steps", "%d steps performed, %s requested" % (S, MI))
        if stepping:
            ctx.probe("clock-set-during-run")
            continue
        elapsed = [0.0] + [ends[(i + 1) * b - 1] - t0 for i in range(S)]
        X = np.asarray(bo.X)

        def dist(n):
            return np.inf if n < 2 else float(np.sqrt(np.sum((X[n - 1] - X[n - 2]) ** 2)))
        for s in range(S):
            n = n_start + s * b
            require(elapsed[s] < MT, "started-after-time-limit", "step %d started with %r s elapsed, the limit is %r" % (s + 1, elapsed[s], MT))
            require(not dist(n) <= eps, "started-after-tolerance", "step %d started with the last two locations %r apart, the tolerance is %r" % (s + 1, dist(n), eps))
        n = n_start + S * b
        why = []
        if S >= MI:
            why.append("iterations")
        if elapsed[S] >= MT:
            why.append("time")
        if dist(n) <= eps:
            why.append("tolerance")
        if linalg:
            why.append("surrogate")
        require(why, "stopped-for-nothing", "stopped after %d of %s steps, %r of %r s, last distance %r (tolerance %r)" % (S, MI, elapsed[S], MT, dist(n), eps))
        for w in why:
            ctx.probe("stop:" + w)
        require(float(bo.cum_time) == elapsed[S], "time-reported", "%r s reported, %r elapsed in this run" % (bo.cum_time, elapsed[S]))
        require(len(bo.X) == n, "record", "%d rows, expected %d" % (len(bo.X), n))
