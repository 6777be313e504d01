"""Evaluation-time costs are learned from the durations actually measured."""
from ..campaign import *
ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 270, "thorough": 60000}
RULE = ("A run is a history of construction, runs, requests and aborted steps of an optimizer with evaluation-time costs under a simulated clock: every evaluation "
        "takes a chosen dyadic time (also zero and days), the wall clock is set forward or back during evaluations, objectives and surrogates fail in the middle of "
        "batches and of initial designs. The data of the regression behind the cost is read below GPyOpt (at GPRegression) and compared with the durations the "
        "simulator let pass; the cost and the proposals must stay finite and positive.")
REAL = ["GPyOpt (CostModel, GPModel)", "GPy regression behind the cost (hyper-parameter optimisation skipped in 85% of the runs, short in the others)", "scipy L-BFGS-B"]
STUB = ["surrogate of the objective: TinyGP", "objective", "clock", "OS entropy"]
ASSUMPTIONS = ["costs are kept as the logarithm of the duration; durations not above zero may be replaced by any positive value up to a millisecond",
               "outputs given by the caller have no duration"]


class Probe:
    """the regression data below GPyOpt"""
    def __init__(self, cheap):
        import GPy
        self.last = None
        R = GPy.models.GPRegression
        init, set_XY = R.__init__, R.set_XY

        def __init__(m, X, Y, *a, **k):
            init(m, X, Y, *a, **k)
            self.last = m

        def setxy(m, *a, **k):
            set_XY(m, *a, **k)
            self.last = m
        R.__init__, R.set_XY = __init__, setxy
        opt = R.optimize
        if cheap:
            R.optimize = lambda m, *a, **k: None
            R.optimize_restarts = lambda m, *a, **k: None
        else:
            def optimize(m, *a, **k):
                k["max_iters"] = 12
                k.pop("messages", None)
                return opt(m, max_iters=12)
            R.optimize = optimize
            R.optimize_restarts = lambda m, *a, **k: optimize(m)

    def data(self):
        if self.last is None:
            return np.zeros((0, 0)), np.zeros(0)
        return np.array(self.last.X, float), np.array(self.last.Y, float)[:, 0]


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx, max_dim=3)
    probe = Probe(not ch.chance(0.15))
    sp = gen_spec(ctx, dom, optimizers=False, acqs=("EI", "MPI"), evaluators=("sequential", "sequential", "random", "thompson_sampling", "local_penalization"))
    sp["cost"] = "evaluation_time"
    b = sp.batch or 1
    sign = -1.0 if sp.maximize else 1.0
    obj = Objective(ctx, dom, shape=ch.pick(["(1,1)", "scalar"]))
    durs = [ch.pick([1.0, 0.5, 0.0, 2.0 ** -20, 3.25, 86400.0]) for _ in range(5)]
    took = {}                  # call number -> (simulated duration, difference of wall clock readings)
    steps = {}

    def duration(k):
        took[k] = [durs[k % 5], durs[k % 5]]
        s = steps.get(k)
        if s:
            ctx.fault("clock:step-during-evaluation", s)
            ctx.clock.step(s)
            took[k][1] += s
        return durs[k % 5]
    obj.duration = duration
    start = ch.weighted([(5, "design"), (2, "X"), (3, "XY"), (3, "lazy")])
    if start == "lazy":
        sp["api"], sp["lazy"] = "mod", True
    X0 = dom.draw(rs, ch.between(2, 4)) if start != "design" else None
    Y0 = None
    if start == "XY":
        Y0 = np.array([[sign * obj.value(x)] for x in X0])
    cost = GPyOpt.core.task.cost
    measured = []              # (row, call number) of recorded evaluations measured by the optimizer

    if ch.chance(0.3):
        steps[ch.draw(10)] = ch.pick([-3600.0, -0.5, 3600.0, -1e6])
    if start != "XY" and ch.chance(0.15):
        obj.plan = {ch.draw(3): "raise"}

    if ch.chance(0.15):
        # another optimizer with learned costs has been used before
        odom = gen_dom(ctx, max_dim=2) if ch.chance(0.5) else dom
        osp = Spec(api="bo", cost="evaluation_time", acq="EI", n_init=2)
        oobj = Objective(ctx, odom)
        oobj.duration = lambda k: 7.0
        api(ctx, "build-other", lambda: build(ctx, odom, oobj, osp)) if ch.chance(0.5) else api(
            ctx, "run-other", lambda: build(ctx, odom, oobj, osp).run_optimization(1, eps=-1))
        probe.last = None
        ctx.probe("other-optimizer-before")
    mod_measures_nothing = sp.api == "mod" and start in ("design", "X")    # the caller evaluates the initial design itself
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, X=X0, Y=Y0))
    if r == "err":
        obj.plan = {}
        obj.calls, obj.t_end = [], []
        took.clear()
        probe.last = None
        r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, X=X0, Y=Y0))
    obj.plan = {}
    if not mod_measures_nothing:
        measured += [(c[0], k) for k, c in enumerate(obj.calls)]
    n_init = 0 if start != "lazy" else len(X0)

    def check(where):
        D, L = probe.data()
        Z = dom.encode(dom.draw(rs, 3))
        c, dc = bo.cost.cost_withGradients(Z)
        c, dc = np.asarray(c, float), np.asarray(dc, float)
        require(c.shape == (3, 1) and dc.shape == Z.shape, "cost-shape", "%s: cost of 3 locations has shapes %s, %s" % (where, c.shape, dc.shape))
        require(np.all(np.isfinite(c)) and np.all(np.isfinite(dc)), "cost-not-finite", "%s: cost %s gradient %s" % (where, c[:, 0].tolist(), dc.tolist()))
        if not measured:
            require(len(L) == 0, "data-before-measurement", "%s: nothing was measured, the cost was fitted to %s" % (where, L.tolist()))
            require(np.all(c == c[0]) and np.all(dc == 0), "cost-not-constant", "%s: nothing was measured, the cost is %s, its gradient %s" % (where, c.tolist(), dc.tolist()))
            ctx.probe("no-measurement-yet")
            return
        require(len(L) == len(measured), "cost-data", "%s: the cost is fitted to %d durations, %d evaluations were measured and recorded" % (where, len(L), len(measured)))
        require(np.all(np.isfinite(L)), "cost-data-not-finite", "%s: log durations %s" % (where, L.tolist()))
        left = list(range(len(L)))
        for row, k in measured:
            z = dom.encode(np.array([row]))[0]
            d, w = took[k]
            hit = None
            for i in left:
                if np.array_equal(D[i], z):
                    v = math.exp(L[i])
                    ok = any((t > 1e-5 and abs(v - t) <= 1e-9 * t) or (t <= 1e-5 and 0 < v <= 1e-3) for t in (w, d))
                    if ok:
                        hit = i
                        break
            if hit is None:
                raise Violation("cost-data", "%s: no duration for the evaluation at %s, which took %r s; the data is %s" % (
                    where, row.tolist(), d, [(D[i].tolist(), math.exp(L[i])) for i in left][:6]))
            left.remove(hit)
        m = probe.last.predict(Z)[0]
        require(np.allclose(c, np.exp(m), rtol=1e-6, atol=0), "cost-value", "%s: the cost is %s, the data says %s" % (where, c[:, 0].tolist(), np.exp(m)[:, 0].tolist()))
        require(np.all(c > 0), "cost-not-positive", "%s: cost %s" % (where, c[:, 0].tolist()))
        a = bo.acquisition
        if hasattr(a, "cost_withGradients") and sp.evaluator != "local_penalization":
            require(np.allclose(a.cost_withGradients(Z)[0], c), "cost-unused", "%s: the acquisition is weighted with another cost than the one learned" % where)
    check("after construction")
    for op in range(ch.between(1, 4)):
        kind = ch.weighted([(5, "run"), (2, "suggest")])
        if ch.chance(0.35):
            if ch.chance(0.6):
                obj.plan = {len(obj.calls) + ch.between(0, 4): ch.pick(["raise", "interrupt", "mutate"])}
            else:
                bo.model.arm(exc=ch.pick(["raise", "linalg"]), **{ch.pick(["update", "predict", "fmin"]): ch.pick([0, 1, 5])})
        if ch.chance(0.3):
            steps[len(obj.calls) + ch.draw(4)] = ch.pick([-3600.0, -0.5, 3600.0, -1e6])
        if kind == "run":
            n0 = len(obj.calls)
            lazy = bo.Y is None
            r, v = api(ctx, "run", lambda: bo.run_optimization(ch.between(0, 3), eps=-1))
            new = list(range(n0, len(obj.calls)))
            if lazy:
                if len(new) >= n_init and all(obj.calls[k][1] is not None for k in new[:n_init]):
                    measured += [(obj.calls[k][0], k) for k in new[:n_init]]
                    new = new[n_init:]
                else:
                    new = []
            done = [k for k in new if obj.calls[k][1] is not None]
            for k in done[:(len(done) // b) * b]:
                measured.append((obj.calls[k][0], k))
            if r == "err":
                ctx.probe("aborted-run")
        elif bo.Y is not None:
            r, v = api(ctx, "suggest", lambda: bo.suggest_next_locations())
            if r == "ok":
                dom.check(np.asarray(v), "proposed with learned costs")
        disarm(bo, obj)
        check("after %s" % kind)
