"""A fixed context is honoured exactly and never outlives its call."""
from ..campaign import *
ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 450, "thorough": 30000}
RULE = ("A run draws a problem of two to four variables and a history of requests and runs, each with its own context, no context or a context naming an "
        "unknown variable, some of them aborted by a failing surrogate or objective. Fixed columns must equal the context exactly, free ones stay in the "
        "domain and reach all of it (random members, and the corner a linear surrogate demands); after each contextual call the optimizer must propose "
        "what a twin that never had a context proposes from the same record and random stream.")
REAL = ["GPyOpt", "scipy L-BFGS-B, cma"]
STUB = ["surrogates: TinyGP and a linear one behind BOModel (real GPy in 4% of the runs, without the twin)", "objective", "clock", "OS entropy"]


def cols(dom, cx):
    names = [v.name for v in dom.vars]
    return [(names.index(k), v) for k, v in cx.items()]


def honoured(dom, X, cx, where):
    X = np.asarray(X, float)
    if len(X):
        dom.check(X, where)
    for j, v in (cols(dom, cx) if cx else []):
        for row in X:
            require(row[j] == v, "context-not-honoured", "%s: %s is %r in %s, the context says %r" % (where, dom.vars[j].name, row[j], row.tolist(), v))


def any_context(ctx, dom, rs, min_free):
    """like gen_context, but also borders and, for unconstrained continuous variables, any value between"""
    cx = gen_context(ctx, dom, rs, min_free=min_free)
    if cx and not dom.cons and ctx.ch.chance(0.3):
        for k in list(cx):
            v = [v for v in dom.vars if v.name == k][0]
            cx[k] = ctx.ch.pick([float(min(v.dom)), float(max(v.dom)), cx[k]]) if v.kind != "categorical" else ctx.ch.draw(len(v.dom))
    return cx


def corner(ctx, rs):
    """with a linear surrogate the proposal is the corner of the free variables"""
    ch = ctx.ch
    dom = gen_dom(ctx, kinds=("cont", "mixed"), max_dim=4, min_cont=1)
    while len(dom.vars) < 2:
        dom.add("extra", "continuous", ch.pick(BOUNDS))
    sp = Spec(acq=ch.pick(["LCB", "LCB", "EI"]), evaluator="sequential", api=ch.pick(["bo", "mod"]), n_init=2, dedup=ch.chance(0.2))
    coef = []
    for v in dom.vars:
        coef += [float(rs.choice([-1, 1])) * float(rs.uniform(0.3, 1))] * (len(v.dom) if v.kind == "categorical" else 1)
    model = Slope(ctx, dom.scale(), coef)
    obj = Objective(ctx, dom)
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, model=model))
    own = {} if ch.chance(0.5) else None
    for _ in range(ch.between(1, 3)):
        cx = any_context(ctx, dom, rs, 1)
        if cx is None:
            continue
        if own is not None:
            own.clear()
            own.update(cx)
            cx = own
        r, x = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx))
        honoured(dom, x, cx, "proposal")
        ctx.probe("corner")
        k = 0
        for j, v in enumerate(dom.vars):
            w = len(v.dom) if v.kind == "categorical" else 1
            c = coef[k]
            k += w
            if v.name in cx or v.kind == "categorical":
                continue
            lo, hi = float(min(v.dom)), float(max(v.dom))
            want = lo if c > 0 else hi
            if sp.acq == "EI" and x.shape[0] == 1:
                ok = abs(x[0, j] - want) <= 0.05 * (hi - lo) or v.kind == "discrete"
            else:
                ok = abs(x[0, j] - want) <= 0.01 * (hi - lo)
            if sp.dedup:
                ok = True
            require(ok, "free-variable-restricted", "with context %s the acquisition is best at %s=%r but %r was proposed (coefficients %s)" % (cx, v.name, want, x[0, j], coef))


def spread(ctx, rs):
    """the random members of a big batch cover the domains of the free variables"""
    ch = ctx.ch
    dom = gen_dom(ctx, kinds=("mixed", "cont", "finite"), max_dim=4)
    if len(dom.vars) < 2:
        dom.add("extra", "continuous", ch.pick(BOUNDS))
    sp = Spec(acq="EI", evaluator="random", batch=40, api=ch.pick(["bo", "mod"]), n_init=2)
    obj = Objective(ctx, dom)
    cx = any_context(ctx, dom, rs, 1)
    free = [j for j, v in enumerate(dom.vars) if not (cx and v.name in cx)]
    sp["dedup"] = any(dom.vars[j].kind == "continuous" for j in free) and ch.chance(0.3)
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp))
    r, x = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx))
    honoured(dom, x, cx or {}, "proposal")
    ctx.probe("spread")
    x = x[1:]
    rows = [tuple(row[free]) for row in x]
    if sp.dedup and rows == sorted(rows):
        raise Violation("sorted-random-members", "with de-duplication the random members of the batch are sorted: %s ... %s in a domain %s" % (rows[0], rows[-1], dom.describe()))
    for j, v in enumerate(dom.vars):
        if cx and v.name in cx:
            continue
        if v.kind == "continuous":
            mid = (v.dom[0] + v.dom[1]) / 2.0
            ok = x[:, j].min() < mid < x[:, j].max()
        else:
            ok = len(set(x[:, j].tolist())) >= 2
        require(ok, "free-variable-restricted", "with context %s all 39 random members have %s in %s" % (cx, v.name, sorted(set(x[:, j].tolist()))[:5]))


def history(ctx, rs):
    ch = ctx.ch
    dom = gen_dom(ctx, kinds=("cont", "mixed", "finite"), max_dim=4)
    if len(dom.vars) < 2:
        dom.add("extra", "continuous", ch.pick(BOUNDS))
    if ch.chance(0.3):
        add_constraints(ctx, dom, min_frac=0.3)
    sp = gen_spec(ctx, dom, real=0.04, dedup=0.2)
    obj = Objective(ctx, dom)
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp))
    mf = 2 if sp.optimizer == "CMA" else 1
    last = None
    own = {} if ch.chance(0.5) else None      # a caller that keeps one dictionary and changes its entries between calls
    for op in range(ch.between(1, 4)):
        mode = ch.weighted([(5, "context"), (2, "none"), (2, "unknown")])
        cx = any_context(ctx, dom, rs, mf) if mode == "context" else None
        if mode == "unknown":
            cx = any_context(ctx, dom, rs, mf) or {}
            bad = ch.pick(["no_such_variable", dom.vars[0].name + "_9", dom.vars[0].name.upper() + "?"])
            cx = dict([(bad, 0.0)] + list(cx.items())) if ch.chance(0.5) else dict(list(cx.items()) + [(bad, 0.0)])
        if cx and own is not None:
            own.clear()
            own.update(cx)
            cx = own
            ctx.probe("reused-context-object")
        given = dict(cx) if cx else None
        allow = (FullyExploredOptimizationDomainError,)
        X0, Y0 = bo.get_evaluations()
        if mode == "unknown":
            allow += (Exception,)
        elif ch.chance(0.35):
            _, more = arm_fault(ctx, bo, obj, sp)
            allow += more
        n0 = len(obj.calls)
        if ch.chance(0.4):
            r, v = api(ctx, "run", lambda: bo.run_optimization(ch.between(1, 2), eps=-1, context=cx), allow)
            ev = np.array([c[0] for c in obj.calls[n0:]]).reshape(-1, dom.dim)
            if mode != "unknown":
                honoured(dom, ev, cx or {}, "evaluated")
        else:
            r, v = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx), allow)
            if r == "ok" and mode != "unknown":
                honoured(dom, v, cx or {}, "proposal")
        disarm(bo, obj)
        require(not given or cx == given, "context-altered", "the caller's context %s became %s" % (given, cx))
        if mode == "unknown":
            ctx.probe("unknown-variable")
            require(r == "err", "unknown-accepted", "a context naming an unknown variable was accepted: %s" % (cx,))
            require(same(bo.X, X0) and same(bo.Y, Y0) and len(obj.calls) == n0, "unknown-disturbed", "a rejected context changed the record")
        if r == "err":
            ctx.probe("aborted-contextual-call" if cx else "aborted-call")
        last = given
    if sp.model != "tiny" or bo.Y is None or len(bo.X) != len(bo.Y):
        return
    # a twin that never had a context continues from the same record
    X, Y = bo.get_evaluations()
    tw = Spec(sp)
    tw["maximize"] = False
    obj2 = Objective(ctx, dom, seed=1)
    r, twin = api(ctx, "build-twin", lambda: build(ctx, dom, obj2, tw, X=X, Y=Y))
    cx = any_context(ctx, dom, rs, mf) if ch.chance(0.3) else None
    s = ch.draw(1 << 20)
    np.random.seed(s)
    ra, a = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx), (FullyExploredOptimizationDomainError,))
    np.random.seed(s)
    rb, b = api(ctx, "twin-suggest", lambda: twin.suggest_next_locations(context=cx), (FullyExploredOptimizationDomainError,))
    require(ra == rb, "context-lingers", "after contextual calls the outcome is %s, a twin without that past: %s" % (a if ra == "err" else ra, b if rb == "err" else rb))
    if ra == "ok":
        honoured(dom, a, cx or {}, "proposal")
        require(same(a, b), "context-lingers", "after calls with contexts (last %s) the proposal is %s; a twin without that past proposes %s" % (last, np.asarray(a).tolist(), np.asarray(b).tolist()))
    ctx.probe("twin-compared")


def run(ctx):
    rs = np.random.RandomState(ctx.ch.draw(1 << 20))
    ctx.ch.weighted([(6, history), (2, corner), (2, spread)])(ctx, rs)
