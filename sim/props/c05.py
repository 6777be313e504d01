"""The evaluation history stays aligned, append-only and true."""
from ..campaign import *
ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 60000}
RULE = ("A run is a history of runs, requests and queries against one optimizer with objectives that raise, are interrupted, scribble on their argument, "
        "reuse their result buffer or return other shapes, surrogates that raise at a chosen call, and a caller that overwrites every array it handed in "
        "or got back. The judge keeps the log of what the objective was really given and really returned, and looks at the record between and during calls.")
REAL = ["GPyOpt", "scipy L-BFGS-B"]
STUB = ["surrogate: TinyGP behind BOModel (GPy in 4% of the runs)", "objective", "clock", "OS entropy"]


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx)
    sp = gen_spec(ctx, dom, real=0.04, dedup=0.1, optimizers=False)
    if sp.dedup and dom.finite:
        sp["dedup"] = False
    sp["bare"] = ch.chance(0.12)
    obj = Objective(ctx, dom, shape=ch.pick(["(1,1)", "scalar", "(1,)", "buffer", "cached", "cached"]))
    sign = -1.0 if sp.maximize else 1.0
    b = sp.batch or 1
    start = ch.weighted([(4, "design"), (3, "X"), (3, "XY"), (2, "lazy")])
    if start == "lazy":
        sp["api"], sp["lazy"] = "mod", True
        if sp.evaluator == "local_penalization" and sp.model == "GP":
            sp["model"] = "GP"
    X0 = Y0 = None
    if start in ("X", "XY", "lazy"):
        X0 = dom.draw(rs, ch.between(1, 5))
    if start == "XY":
        Y0 = np.array([[sign * obj.value(x)] for x in X0])
    given = [] if X0 is None else [r.copy() for r in X0]
    fault_first = start != "XY" and ch.chance(0.15)
    if fault_first:
        obj.plan = {ch.draw(3): ch.pick(["raise", "interrupt"])}
    st = dict(bo=None, low=0)

    def hook(k, row):
        # the record as the objective (or a thread, or a signal handler) can see it while a step is going on
        bo = st["bo"]
        if bo is None or bo.Y is None:
            return
        if len(bo.X) != len(bo.Y):
            ctx.bad("misaligned", "while the objective is called the record has %d inputs and %d outputs" % (len(bo.X), len(bo.Y)))
        if len(bo.Y) < st["low"]:
            ctx.bad("shrunk", "while the objective is called the record has %d rows, it had %d" % (len(bo.Y), st["low"]))
    obj.hook = hook
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, X=X0, Y=Y0))
    obj.plan = {}
    if r == "err":      # nothing was built: the caller builds again
        obj.calls, obj.t_end = [], []
        r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, X=X0, Y=Y0))
    st["bo"] = bo
    # the expected record
    EX, EY = [], []
    if start == "XY":
        EX, EY = [r for r in given], [float(y) for y in Y0[:, 0]]
    elif start == "lazy":
        pass
    else:
        EX, EY = [c[0] for c in obj.calls], [sign * c[1] for c in obj.calls]
        if start == "X":
            require(len(EX) == len(given) and all(np.array_equal(a, g) for a, g in zip(EX, given)), "initial-inputs", "the given inputs were not the ones evaluated")
    if X0 is not None and ch.chance(0.6):
        ctx.fault("caller:overwrites-its-arrays")
        X0[...] = 55.5
        if Y0 is not None:
            Y0[...] = -55.5

    def compare(where):
        if bo.Y is None:
            require(start == "lazy" and not EX, "lost", "%s: the outputs are gone" % where)
            require(len(bo.X) == len(given) and all(np.array_equal(a, g) for a, g in zip(bo.X, given)), "inputs-changed", "%s: the initial inputs changed" % where)
            return
        X, Y = bo.X, bo.Y
        require(X.ndim == 2 and Y.ndim == 2 and Y.shape[1] == 1 and len(X) == len(Y), "misaligned", "%s: X %s, Y %s" % (where, X.shape, Y.shape))
        require(len(X) == len(EX), "record-length", "%s: %d rows recorded, %d expected" % (where, len(X), len(EX)))
        for i in range(len(EX)):
            require(np.array_equal(X[i], EX[i]), "wrong-input", "%s: row %d is %s, evaluated was %s" % (where, i, X[i].tolist(), list(EX[i])))
            require(float(Y[i, 0]) == EY[i] or (np.isnan(EY[i]) and np.isnan(Y[i, 0])), "wrong-output",
                    "%s: output of row %d is %r, the objective returned %r" % (where, i, float(Y[i, 0]), EY[i]))
        st["low"] = len(EX)
        obj.intact()
    compare("after construction")

    def take(n0, failed_in):
        """rows the record must have gained from the calls since n0"""
        new = obj.calls[n0:]
        done = [c for c in new if c[1] is not None]
        keep = (len(done) // b) * b
        for c in done[:keep]:
            EX.append(c[0])
            EY.append(sign * c[1])

    for op in range(ch.between(1, 5)):
        k = ch.weighted([(5, "run"), (3, "suggest"), (1, "get"), (1, "read-model")])
        if k in ("run", "suggest"):
            if ch.chance(0.5):
                m = model_of(bo)
                what = ch.pick(["objective", "objective", "query", "update"] if m is not None else ["objective"])
                if what == "objective":
                    obj.plan = {len(obj.calls) + ch.between(0, 5): ch.pick(["raise", "interrupt", "keyerror", "linalg", "memory", "mutate", "huge"])}
                elif what == "update":
                    m.arm(update=ch.between(0, 2), exc=ch.pick(["raise", "interrupt", "linalg"]))
                else:
                    m.arm(exc=ch.pick(["raise", "interrupt", "linalg"]), **{ch.pick(["predict", "grad", "fmin"]): ch.pick([0, 2, 9, 30, 70])})
        if k == "run":
            n0 = len(obj.calls)
            lazy_now = bo.Y is None
            steps = ch.between(0, 3)
            r, v = api(ctx, "run", lambda: bo.run_optimization(steps, eps=ch.pick([-1, 1e-8]), verbosity=ch.chance(0.2)))
            if lazy_now:
                init = obj.calls[n0:n0 + len(given)]
                if len(init) == len(given) and all(c[1] is not None for c in init):
                    for c, g in zip(init, given):
                        require(np.array_equal(c[0], g), "initial-inputs", "the given inputs were not the ones evaluated")
                        EX.append(c[0])
                        EY.append(sign * c[1])
                    n0 += len(given)
                else:
                    n0 = len(obj.calls)
            take(n0, r)
            if r == "err":
                ctx.probe("run-aborted")
        elif k == "suggest" and bo.Y is not None:
            cx = gen_context(ctx, dom, rs) if ch.chance(0.2) else None
            r, v = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx), (FullyExploredOptimizationDomainError,))
            if r == "ok" and ch.chance(0.5):
                ctx.fault("caller:overwrites-a-proposal")
                v[...] = 99.25
        elif k == "get" and bo.Y is not None:
            X, Y = bo.get_evaluations()
            compare("get_evaluations")
            require(same(X, bo.X) and same(Y, bo.Y), "get-evaluations", "get_evaluations differs from the record")
            X[...] = 1e9
            Y[...] = -1e9
            ctx.fault("caller:overwrites-queried-arrays")
        elif k == "read-model" and model_of(bo) is not None and bo.model.model is not None:
            bo.model.predict(dom.encode(dom.draw(rs, 3)))
        disarm(bo, obj)
        compare("after %s" % k)
        if hasattr(bo, "x_opt") and ch.chance(0.2) and isinstance(bo.x_opt, np.ndarray):
            ctx.fault("caller:overwrites-the-result")
            bo.x_opt = np.array(bo.x_opt)
    # still usable
    n0 = len(obj.calls)
    lazy_now = bo.Y is None
    r, v = api(ctx, "run", lambda: bo.run_optimization(1, eps=-1))
    if lazy_now:
        for c in obj.calls[n0:n0 + len(given)]:
            EX.append(c[0])
            EY.append(sign * c[1])
        n0 += len(given)
    require(len(obj.calls) - n0 == b, "not-usable", "after the history a run of one step evaluated %d locations, the batch size is %d" % (len(obj.calls) - n0, b))
    take(n0, r)
    compare("at the end")
