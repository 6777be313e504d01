"""The reported optimum is always the best evaluation on record."""
from ..campaign import *
ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 450, "thorough": 60000}
RULE = ("A run is a history of optimization runs of one optimizer: completed, stopped by time or tolerance, aborted by a failing objective or surrogate and "
        "resumed, with ties, huge and infinite values, minimising and maximising; after each the results are recomputed from the record and from the log of "
        "the objective.")
REAL = ["GPyOpt", "scipy L-BFGS-B"]
STUB = ["surrogate: TinyGP behind BOModel (GPy in 4% of the runs)", "objective", "clock", "OS entropy"]


def judge(ctx, bo, where, sign=None, obj=None):
    X, Y = np.asarray(bo.X), np.asarray(bo.Y, float)
    require(len(X) == len(Y), "misaligned", "%s: %d and %d rows" % (where, len(X), len(Y)))
    best = min(float(y) for y in Y[:, 0])
    fx = np.asarray(bo.fx_opt, float).reshape(-1)
    require(len(fx) == 1 and fx[0] == best, "best-value", "%s: fx_opt is %r, the best recorded output is %r" % (where, bo.fx_opt, best))
    x = np.asarray(bo.x_opt, float).reshape(-1)
    ok = any(np.array_equal(X[i], x) and float(Y[i, 0]) == best for i in range(len(X)))
    require(ok, "best-location", "%s: x_opt is %s, the best rows are %s" % (where, x.tolist(), X[Y[:, 0] == best].tolist()))
    c = np.asarray(bo.Y_best, float).reshape(-1)
    require(len(c) == len(Y), "curve-length", "%s: %d entries for %d evaluations" % (where, len(c), len(Y)))
    run = np.inf
    for i in range(len(Y)):
        run = min(run, float(Y[i, 0]))
        require(c[i] == run, "curve", "%s: entry %d of the best-so-far curve is %r, the best of the first %d outputs is %r" % (where, i, c[i], i + 1, run))
    if obj is not None:
        vals = [sign * cc[1] for cc in obj.calls if cc[1] is not None]
        if len(vals) == len(Y):
            require(fx[0] == min(vals), "best-value", "%s: fx_opt is %r, the objective returned as best %r" % (where, fx[0], min(vals)))


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx)
    sp = gen_spec(ctx, dom, real=0.04, dedup=0.1, optimizers=False)
    sp["maximize"] = ch.chance(0.4)
    if sp.dedup and dom.finite:
        sp["dedup"] = False
    sign = -1.0 if sp.maximize else 1.0
    obj = Objective(ctx, dom, duration=lambda k: 1.0)
    ties = ch.chance(0.3)
    if ties:
        real = obj.value
        obj.value = lambda row: float(np.round(real(row)))
        ctx.probe("ties")
    X = dom.draw(rs, ch.between(1, 4)) if ch.chance(0.3) else None
    Y = None
    if X is not None and ch.chance(0.5):
        Y = np.array([[sign * obj.value(x)] for x in X])
        if ch.chance(0.3):
            Y[ch.draw(len(Y)), 0] = ch.pick([-50.0, 1e9, np.inf])
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, X=X, Y=Y))
    plain = Y is None
    for op in range(ch.between(1, 4)):
        allow = ()
        f = ch.weighted([(4, None), (4, "fault"), (1, "time"), (1, "tolerance"), (1, "huge")])
        if f == "fault":
            _, allow = arm_fault(ctx, bo, obj, sp)
        elif f == "huge":
            obj.plan = {len(obj.calls) + ch.draw(3): ch.pick(["huge", "inf"])}
        mt = ch.pick([0, 1.0, 2.5]) if f == "time" else np.inf
        eps = ch.pick([0.5, 1e9]) if f == "tolerance" else -1
        n0 = len(bo.X) if bo.X is not None else 0
        cx = gen_context(ctx, dom, rs) if ch.chance(0.15) else None
        r, v = api(ctx, "run", lambda: bo.run_optimization(ch.between(0, 3), max_time=mt, eps=eps, context=cx), allow + (FullyExploredOptimizationDomainError,))
        disarm(bo, obj)
        if r == "ok":
            judge(ctx, bo, "after a run", sign, obj if plain else None)
        else:
            plain = False
            ctx.probe("run-aborted")
    r, v = api(ctx, "run", lambda: bo.run_optimization(ch.between(0, 1), eps=-1), (FullyExploredOptimizationDomainError,))
    if r == "ok":
        judge(ctx, bo, "after the last run", sign)
