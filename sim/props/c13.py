"""Proposals depend only on the recorded data, not on how it was reached."""
import os

from ..campaign import *
from .c12 import gen_disk
ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 480, "thorough": 60000}
RULE = ("A run is a history of runs, requests, contexts, pending points, queries, failing objectives and surrogates and aborted calls against one optimizer. Then the same "
        "question (a request, a run, the same work split over several runs, or an external loop of requests with a new optimizer for every step) is put to it and to "
        "optimizers newly built from its record, all with the same state of the random stream: every proposed and evaluated location must be the same.")
REAL = ["GPyOpt", "scipy L-BFGS-B, cma, emcee (entropy search)"]
STUB = ["surrogate: TinyGP behind BOModel (determined by its data)", "objective", "clock", "OS entropy"]
ASSUMPTIONS = ["surrogates whose fit depends on earlier fits (GPy warm starts) and evaluation-time costs are outside the property"]
Full = (FullyExploredOptimizationDomainError,)


def user_cost(dom):
    w = np.arange(1.0, dom.model_dim + 1)

    def cost(x):
        x = np.atleast_2d(x)
        z = 1.0 + np.tanh(x.dot(w)[:, None]) ** 2
        t = np.tanh(x.dot(w)[:, None])
        return z, 2 * t * (1 - t ** 2) * w
    return cost


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx, max_dim=3)
    if dom.arms is None and ch.chance(0.25):
        add_constraints(ctx, dom, min_frac=0.25)
    sp = gen_spec(ctx, dom, dedup=0.25, max_batch=3)
    plain = dom.arms is None and not dom.has_cat and not dom.cons and all(a < b for a, b in dom.scale())
    if plain and ch.chance(0.06):
        sp["acq"], sp["api"], sp["evaluator"], sp["batch"], sp["optimizer"] = "ES", "mod", "sequential", 1, "lbfgs"
    es = sp.acq == "ES"
    if ch.chance(0.15) and sp.evaluator != "local_penalization" and not es:
        sp["cost"] = user_cost(dom)
    ctx.config["acq"] = sp.acq
    mf = 2 if sp.optimizer == "CMA" else 1
    obj = Objective(ctx, dom)
    sign = -1.0 if sp.maximize else 1.0
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp))
    ran = [False]

    def observe():
        """somebody looks at the optimizer: plots, reports, saved tables (on a disk that may fail)"""
        fs = seams.W.fs = seams.SimFS(ctx, ctx.scratch)
        path = os.path.join(ctx.scratch, "seen")
        kinds = ["evaluations", "get", "convergence" if ran[0] else "get"] + (["report"] if ran[0] else []) + (["models"] if bo.model_parameters_iterations is not None else [])
        if not es and bo.model.model is not None and plain and (dom.model_dim == 2 or dom.model_dim == 1 and 0.01 < dom.scale()[0][1] - dom.scale()[0][0] < 20) and ch.chance(0.6):
            kinds = ["acquisition"]
        what = ch.pick(kinds)
        ctx.config["observed"] = what
        if what in ("evaluations", "report", "models"):
            fs.arm(gen_disk(ctx))
        elif ch.chance(0.3) and what != "get":
            obj.plan = {}
            if what == "acquisition" and model_of(bo) is not None:
                model_of(bo).arm(exc=ch.pick(["raise", "interrupt"]), predict=ch.pick([0, 1, 2, 5, 20]))
        f = {"evaluations": lambda: bo.save_evaluations(path), "report": lambda: bo.save_report(path), "models": lambda: bo.save_models(path), "get": bo.get_evaluations,
             "convergence": lambda: bo.plot_convergence(os.path.join(ctx.scratch, "c.png") if ch.chance(0.5) else None),
             "acquisition": lambda: bo.plot_acquisition()}[what]
        r, v = api(ctx, "observe " + what, f, (OSError,) + Full + ((ValueError,) if what == "convergence" else ()))   # (the curve is stale after an aborted run)
        ctx.probe("observed-%s-%s" % (what, r))
        fs.disarm()
        seams.W.fs = None
        disarm(bo, obj)
    # ------------------------------------------------------------------ the past
    for op in range(ch.between(1, 2 if es else 4)):
        k = ch.weighted([(4, "run"), (4, "suggest"), (1, "query"), (1, "observe")])
        if k == "observe":
            observe()
            continue
        cx = gen_context(ctx, dom, rs, min_free=mf) if ch.chance(0.35) and not es else None
        allow = Full
        if k != "query" and ch.chance(0.5):
            _, more = arm_fault(ctx, bo, obj, sp)
            allow += more
        if k == "run":
            r, v = api(ctx, "run", lambda: bo.run_optimization(ch.between(1, 2), eps=-1, context=cx, verbosity=ch.chance(0.1)), allow)
            ran[0] = ran[0] or r == "ok"
        elif k == "suggest":
            kw = {}
            if sp.dedup and ch.chance(0.5):
                kw = dict(pending_X=dom.draw(rs, 2), ignored_X=dom.draw(rs, 2))
            r, v = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx, **kw), allow)
        elif bo.model.model is not None:
            Z = dom.encode(dom.draw(rs, 3))
            bo.model.predict(Z)
            (bo.acquisition.acq if hasattr(bo.acquisition, "acq") else bo.acquisition).acquisition_function(Z) if not es else None
            bo.get_evaluations()
            r = "ok"
        if r == "err":
            ctx.probe("aborted-call")
        disarm(bo, obj)
    X, Y = np.array(bo.X, float), np.array(bo.Y, float)
    require(len(X) == len(Y), "misaligned", "X %s, Y %s" % (X.shape, Y.shape))
    if not np.all(np.isfinite(Y)):
        return

    def fresh(X, Y, f):
        return build(ctx, dom, f, sp, X=X.copy(), Y=Y.copy())

    # twins evaluate the same function: the original's, without its past
    def same_objective():
        o = Objective(ctx, dom, seed=1)
        o.opt, o.amp, o.off, o.lo, o.wd = obj.opt, obj.amp, obj.off, obj.lo, obj.wd
        return o
    cx = gen_context(ctx, dom, rs, min_free=mf) if ch.chance(0.3) and not es else None
    kw = {}
    if sp.dedup and ch.chance(0.5):
        kw = dict(pending_X=dom.draw(rs, 2), ignored_X=dom.draw(rs, 2))
    seed = ch.draw(1 << 30)

    def ask(name, fn):
        np.random.seed(seed)
        return api(ctx, name, fn, Full)

    def show(r, v):
        return np.asarray(v).tolist() if r == "ok" else type(v).__name__
    mode = ch.pick(["suggest", "run", "split", "external"]) if (sp.interval or 1) == 1 else ch.pick(["suggest", "run"])
    if es:
        mode = "suggest"
    ctx.config["question"] = mode
    if mode == "suggest":
        ra, a = ask("suggest", lambda: bo.suggest_next_locations(context=cx, **{k: v.copy() for k, v in kw.items()}))
        tw = fresh(X, Y, same_objective())
        rb, b = ask("twin suggest", lambda: tw.suggest_next_locations(context=cx, **{k: v.copy() for k, v in kw.items()}))
        require(ra == rb and (ra == "err" or same(a, b)), "hidden-state", lambda: "the optimizer proposes %s, a new one with the same record %s" % (show(ra, a), show(rb, b)))
        return
    n = ch.between(1, 2) if mode == "run" else ch.between(2, 3)
    ra, a = ask("run", lambda: bo.run_optimization(n, eps=-1, context=cx))
    if mode in ("run", "split"):
        tw = fresh(X, Y, same_objective())

        def work():
            if mode == "run":
                tw.run_optimization(n, eps=-1, context=cx)
            else:
                m = ch.between(1, n - 1)
                tw.run_optimization(m, eps=-1, context=cx)
                tw.run_optimization(n - m, eps=-1, context=cx)
        rb, b = ask("twin run", work)
        X2, Y2 = tw.X, tw.Y
    else:
        X2, Y2 = X.copy(), Y.copy()
        f = same_objective()
        rb = "ok"
        np.random.seed(seed)
        for i in range(n):
            rb, x = api(ctx, "external step", lambda: fresh(X2, Y2, f).suggest_next_locations(context=cx), Full)
            if rb == "err":
                break
            Y2 = np.vstack([Y2] + [np.array([[sign * f.value(row)]]) for row in x])
            X2 = np.vstack([X2, x])
    require(same(bo.X, X2), "hidden-state", lambda: "%s: the optimizer evaluates %s, a new one with the same record %s" % (mode, bo.X[len(X):].tolist(), np.asarray(X2)[len(X):].tolist()))
    require(same(bo.Y, Y2), "record", lambda: "%s: outputs %s / %s" % (mode, bo.Y[len(X):].tolist(), np.asarray(Y2)[len(X):].tolist()))
    require(ra == rb, "outcome", "%s: the optimizer ends with %s, the twin with %s" % (mode, ra, rb))
