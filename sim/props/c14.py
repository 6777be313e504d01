"""The surrogate is always fitted to the recorded evaluations."""
from ..campaign import *
ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 520, "thorough": 60000}
RULE = ("A run is a history of runs, requests, contexts, failing objectives and fits that fail or are interrupted, with random update intervals, output normalisation on or off, "
        "constant, huge and ordinary outputs and all kinds of variables. The data of every fit is recorded where it reaches the surrogate and compared with the encoded and "
        "standardised log of the objective; whenever the surrogate is queried its last fit must be the one the update schedule asks for.")
REAL = ["GPyOpt", "scipy L-BFGS-B", "GPy surrogates in 15% of the runs (the data is read from the GPy model there, too)"]
STUB = ["surrogate: TinyGP behind BOModel in the others", "objective", "clock", "OS entropy"]
ASSUMPTIONS = ["whether a run that ends fits once more after its last evaluation is left open, if that step number is a multiple of the interval"]


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx)
    if dom.arms is None and ch.chance(0.15):
        add_constraints(ctx, dom, min_frac=0.25)
    sp = gen_spec(ctx, dom, real=0.15, dedup=0.15, optimizers=False)
    if dom.finite:
        sp["dedup"] = False
    sp["interval"] = ch.pick([1, 2, 3, 4])
    sp["normalize"] = ch.chance(0.6)
    ctx.config.update(interval=sp.interval, normalize=sp.normalize)
    obj = Objective(ctx, dom, shape=ch.pick(["(1,1)", "scalar", "buffer"]))
    if ch.chance(0.12):
        obj.amp[:] = 0.0             # a constant objective, nearly
    unit = ch.pick([1.0, 1.0, 1.0, 1.0, 1e-9, 1e-5, 1e7, 1e-16, 1e-25])
    if unit != 1.0:
        plain = obj.value
        obj.value = lambda row: unit * plain(row)
        ctx.config["unit"] = unit
    flat = ch.chance(0.06)
    if flat:
        obj.value = lambda row: 2.5
    sign = -1.0 if sp.maximize else 1.0
    b = sp.batch or 1
    X0 = None
    lazy = ch.chance(0.12)
    if lazy:
        sp["api"], sp["lazy"] = "mod", True
        X0 = dom.draw(rs, ch.between(2, 4))
    elif ch.chance(0.2):
        X0 = dom.draw(rs, ch.between(1, 4) if sp.model != "tiny" or ch.chance(0.75) else ch.pick([48, 60, 99, 130]))
    st = dict(start=0, call=None, last=None, fits=0, step=0, seen=set())

    def rows():
        """the log of the objective up to the last complete batch"""
        done = [c for c in obj.calls if c[1] is not None]
        n = base[0] + (len(done) - base[0]) // b * b
        return np.array([c[0] for c in done[:n]]).reshape(n, dom.dim), np.array([[sign * c[1]] for c in done[:n]])
    base = [0]

    def compare(X, Y, where):
        EX, EY = rows()
        EX = dom.encode(EX)
        require(X.shape == EX.shape, "inputs", lambda: "%s: fitted to inputs of shape %s, the record encodes to %s" % (where, X.shape, EX.shape))
        require(np.array_equal(X, EX), "inputs", lambda: "%s: fitted to the inputs %s, the record is %s" % (where, X.tolist(), EX.tolist()))
        require(Y.shape == EY.shape, "outputs", lambda: "%s: fitted to outputs of shape %s, %d are recorded" % (where, Y.shape, len(EY)))
        if sp.normalize:
            d = EY - EY.mean()
            s = EY.std()
            want = d / s if s > 0 else d
            tol = 1e-7 * max(1.0, 1e-6 * np.abs(EY).max() / s if s > 0 else 1.0)
            if s > 0 and s > 1e-13 * np.abs(EY).max():
                require(np.allclose(Y, want, rtol=1e-7, atol=tol), "outputs", lambda: "%s: fitted to the outputs %s, standardised they are %s" % (where, Y[:, 0].tolist(), want[:, 0].tolist()))
            elif s == 0:
                require(np.abs(Y).max() <= 1e-9 * max(1.0, np.abs(EY).max()), "outputs", lambda: "%s: constant outputs, fitted to %s" % (where, Y[:, 0].tolist()))
        else:
            require(np.array_equal(Y, EY), "outputs", lambda: "%s: fitted to the outputs %s, recorded are %s" % (where, Y[:, 0].tolist(), EY[:, 0].tolist()))

    def step():
        return (len(rows()[0]) - st["start"]) // b

    def guard(fn):
        # a violation inside a callback must survive handlers of the code under test
        def go(*a, **k):
            try:
                return fn(*a, **k)
            except Violation as v:
                ctx.bad(v.kind, v.msg)
        return go

    @guard
    def fitted(X, Y):
        where = "%s, step %s" % (st["call"], step() if st["call"] == "run" else "-")
        compare(np.array(X, float), np.array(Y, float), where)
        if st["call"] == "run":
            k = step()
            require(k % sp.interval == 0, "schedule", lambda: "a run with update interval %d fitted the surrogate at step %d" % (sp.interval, k))
        st["last"] = len(rows()[0])
        st["fits"] += 1

    @guard
    def queried(what):
        if what == "update" or st["call"] is None:
            return
        n = len(rows()[0])
        if st["call"] == "run":
            k = step()
            n = st["start"] + (k - k % sp.interval) * b
        require(st["last"] == n, "schedule", lambda: "%s: the surrogate is asked for predictions at %d evaluations; its last fit used %s, the update interval %d asks for %d" % (
            st["call"], len(rows()[0]), st["last"], sp.interval, n))
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, X=X0))
    base[0] = len(obj.calls) if not lazy else len(X0)
    m = bo.model
    real = m.updateModel

    def update(X_all, Y_all, *a, **k):
        fitted(X_all, Y_all)
        real(X_all, Y_all, *a, **k)
        if sp.model in ("GP", "GP_MCMC", "sparseGP"):
            guard(compare)(np.array(m.model.X, float), np.array(m.model.Y, float), "inside the GPy model, %s" % st["call"])
    m.updateModel = update
    if isinstance(m, TinyGP):
        m.on_query = queried
    else:
        for name in ("predict", "predict_withGradients"):
            def wrap(f):
                def go(*a, **k):
                    queried("predict")
                    return f(*a, **k)
                return go
            setattr(m, name, wrap(getattr(m, name)))
    for op in range(ch.between(1, 2 if sp.model == "GP_MCMC" else 4)):
        k = ch.weighted([(5, "run"), (4, "suggest")])
        if obj.calls == [] and lazy:
            k = "run"
        cx = gen_context(ctx, dom, rs) if ch.chance(0.25) else None
        allow = Full = (FullyExploredOptimizationDomainError,)
        if not (lazy and not obj.calls) and ch.chance(0.4):
            if isinstance(m, TinyGP) and ch.chance(0.6):
                m.arm(update=ch.between(0, 2), exc=ch.pick(["raise", "linalg", "interrupt"]))
            else:
                obj.plan = {len(obj.calls) + ch.between(0, 4): ch.pick(["raise", "interrupt", "huge"] if not flat else ["raise", "interrupt"])}
        st["call"], st["fits"], st["last"] = k, 0, None
        st["start"] = len(rows()[0]) if obj.calls or not lazy else len(X0)
        if k == "run":
            n = ch.between(0, 2 if sp.model == "GP_MCMC" else 5)
            r, v = api(ctx, "run", lambda: bo.run_optimization(n, eps=-1, context=cx), allow)
            done = step()
            ctx.ev("steps", done)
            if r == "ok" and done == n:
                need = len(range(0, n, sp.interval)) if n else 0
                may = len(range(0, n + 1, sp.interval))
                require(need <= st["fits"] <= may, "schedule", lambda: "a run of %d steps with update interval %d fitted the surrogate %d times" % (n, sp.interval, st["fits"]))
        else:
            r, v = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx), allow)
            if r == "ok":
                require(st["fits"] >= 1, "schedule", "a request was answered without fitting the surrogate")
        if r == "err":
            ctx.probe("aborted-call")
        st["call"] = None
        disarm(bo, obj)
        # calls of an incomplete batch are not part of the record
        n = len(rows()[0])
        done = [c for c in obj.calls if c[1] is not None]
        obj.calls = done[:n]
        if ctx.failed:
            return
