"""With de-duplication on, no location is ever proposed twice."""
from ..campaign import *
ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 1100, "thorough": 20000}
RULE = ("A run is a pool of asynchronous workers on a small finite domain (2 to 90 members, sometimes nearly all evaluated from the start): requests with the pending and ignored points, "
        "workers that finish in any order, fail (their point is ignored or given up), are replaced, optimizers restarted from the record, and plain runs, "
        "until the domain is exhausted. The judge keeps the set of admissible members.")
REAL = ["GPyOpt", "scipy L-BFGS-B"]
STUB = ["surrogate: TinyGP behind BOModel", "objective and the worker pool", "clock", "OS entropy"]


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    size = ch.pick([30, 30, 30, 90])
    for _ in range(20):
        dom = gen_dom(ctx, kinds=("finite", "bandit", "finite"), max_dim=3)
        if len(dom.points()) <= size:
            break
    else:
        dom = Dom()
        dom.add("a", "discrete", (0, 1, 2))
    if dom.arms is None and len(dom.points()) >= 6 and ch.chance(0.2):
        add_constraints(ctx, dom, n=1, min_frac=0.3)
    P = [p for p in dom.points() if dom.feasible(np.array([p]))[0]]
    sp = gen_spec(ctx, dom, dedup=1.0, optimizers=False, max_batch=4)
    sp["dedup"] = True
    sp["maximize"] = False
    if sp.evaluator != "sequential" and sp.api == "mod" and ch.chance(0.25):
        sp["batch"], sp["force_batch"] = 1, True
    sp["n_init"] = ch.between(1, 3)
    if len(P) < 2:
        return
    obj = Objective(ctx, dom)
    X0 = Y0 = None
    if ch.chance(0.2):      # a long record from the start: all but a few members, in any order
        left = ch.between(1, 5)
        if len(P) > left + 3:
            o = ch.perm(len(P))[left:]
            X0 = np.array([P[i] for i in o], float)
            Y0 = np.array([[obj.value(x)] for x in X0])
            ctx.probe("long-record")
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, X=X0, Y=Y0))
    b = sp.batch or 1
    pending, ignored = [], []
    full = (FullyExploredOptimizationDomainError,)

    def tup(row):
        return tuple(float(v) for v in row)

    def arr(pts):
        if not pts:
            return None if ch.chance(0.7) else np.empty((0, dom.dim))
        a = np.array(pts, float)
        if ch.chance(0.2) and np.all(a == a.astype(int)):
            a = a.astype(int)
        return a

    def forbidden():
        return {tup(x) for x in bo.X} | set(pending) | set(ignored)

    def judge(r, v, taken, cx, where):
        adm = [p for p in P if p not in taken and all(p[j] == c for j, c in cx)]
        if r == "err":
            require(not adm, "gave-up", "%s: reported as fully explored, but %d admissible locations are left, e.g. %s" % (where, len(adm), adm[:3]))
            ctx.probe("exhausted")
            return
        rows = [tup(x) for x in v]
        dom.check(np.asarray(v, float), where)
        for x in rows:
            require(x not in taken, "proposed-again", "%s: %s was already evaluated, pending or ignored" % (where, x))
            require(all(x[j] == c for j, c in cx), "context-not-honoured", "%s: %s with context %s" % (where, x, cx))
        require(len(set(rows)) == len(rows), "twice-in-batch", "%s: %s" % (where, rows))
        require(len(rows) == min(b, len(adm)), "short-batch", "%s: %d proposed of a batch of %d with %d admissible left" % (where, len(rows), b, len(adm)))
        if len(rows) < b:
            ctx.probe("short-batch")

    for op in range(ch.between(3, 14)):
        k = ch.weighted([(6, "ask"), (4, "finish"), (1, "fail"), (2, "run"), (1, "restart"), (1, "ask-again"), (1, "abort")])
        if k in ("ask", "ask-again", "abort"):
            cx = []
            context = None
            if dom.arms is None and len(dom.vars) > 1 and ch.chance(0.2):
                p = P[ch.draw(len(P))]
                j = ch.draw(len(dom.vars))
                cx, context = [(j, p[j])], {dom.vars[j].name: p[j]}
                ctx.probe("context")
            pa, ia = arr(pending), arr(ignored)
            taken = forbidden()
            if k == "abort":
                model_of(bo).arm(**{ch.pick(["predict", "fmin", "update"]): ch.pick([0, 1, 4]), "exc": "raise"})
            r, v = api(ctx, "ask", lambda: bo.suggest_next_locations(context=context, pending_X=pa, ignored_X=ia), full)
            model_of(bo).disarm()
            if r == "err" and isinstance(v, INJECTED):
                continue
            judge(r, v, taken, cx, "request")
            if r == "ok" and k == "ask":
                for x in v:
                    pending.append(tup(x))
                    ctx.ev("dispatch", tup(x))
        elif k == "finish" and pending:
            i = ch.draw(len(pending))
            x = pending.pop(i)
            ctx.ev("finished", x)
            # the caller feeds the record of an external loop
            X = np.vstack([bo.X, [x]])
            Y = np.vstack([bo.Y, [[obj.value(x)]]])
            r, bo = api(ctx, "restart", lambda: build(ctx, dom, obj, sp, X=X, Y=Y))
        elif k == "fail" and pending:
            x = pending.pop(ch.draw(len(pending)))
            ctx.fault("worker:failed", x)
            if ch.chance(0.6):
                ignored.append(x)
        elif k == "run" and not pending and not ignored:
            n0, taken = len(bo.X), {tup(x) for x in bo.X}
            r, v = api(ctx, "run", lambda: bo.run_optimization(ch.between(1, 3), eps=-1), full)
            for x in bo.X[n0:]:
                require(tup(x) not in taken, "proposed-again", "a run evaluated %s again" % (tup(x),))
                taken.add(tup(x))
            if r == "err":
                adm = [p for p in P if p not in taken]
                require(not adm, "gave-up", "a run reported the domain as fully explored with %d locations left" % len(adm))
                ctx.probe("exhausted")
        elif k == "restart":
            X, Y = bo.get_evaluations()
            r, bo = api(ctx, "restart", lambda: build(ctx, dom, obj, sp, X=X, Y=Y))
