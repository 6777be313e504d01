"""A random history of requests, runs, faults and aborted calls against one optimizer."""
from .world import *

SHAPES = ("flat", "saturated", "nan", "halfnan", "inf", "zerostd")


def gen_context(ctx, dom, rs, feasible_frac=0.04, min_free=1):
    """values for some (not all) variables; with constraints enough of the rest stays feasible"""
    ch = ctx.ch
    if dom.arms is not None or len(dom.vars) < 2:
        return None
    for _ in range(8):
        p = dom.draw_feasible(rs, 1)[0]
        k = ch.between(1, len(dom.vars) - 1)
        idx = ch.perm(len(dom.vars))[:k]
        free = sum(len(v.dom) if v.kind == "categorical" else 1 for j, v in enumerate(dom.vars) if j not in idx)
        if free < min_free:      # CMA works in two dimensions and more
            continue
        if dom.cons:
            S = dom.draw(rs, 800)
            S[:, idx] = p[idx]
            if dom.feasible(S).mean() < feasible_frac:
                continue
        return {dom.vars[j].name: float(p[j]) for j in idx}
    return None


def model_of(bo):
    return bo.model if isinstance(bo.model, TinyGP) else None


LINE_SEARCH = {}


def break_line_search(ctx, at, every):
    """the at-th bounded local search from now (and all after it) ends like an abnormal termination of the line search in older scipy"""
    import scipy.optimize
    if "real" not in LINE_SEARCH:
        real = LINE_SEARCH["real"] = scipy.optimize.fmin_l_bfgs_b

        def search(func, x0, *a, **k):
            f = LINE_SEARCH.get("fault")
            if f is not None and k.get("bounds") is not None:
                n, f["n"] = f["n"], f["n"] + 1
                if n == f["at"] or (f["every"] and n > f["at"]):
                    f["ctx"].fault("optimizer:abnormal-termination")
                    x = np.full(np.size(x0), np.nan)
                    return x, np.array([[np.nan]]), {"task": f["task"], "warnflag": 2, "nit": 0, "funcalls": 1, "grad": x.copy()}
            return real(func, x0, *a, **k)
        scipy.optimize.fmin_l_bfgs_b = search
    LINE_SEARCH["fault"] = dict(ctx=ctx, at=at, every=every, n=0, task=ctx.ch.pick(["ABNORMAL_TERMINATION_IN_LNSRCH", b"ABNORMAL_TERMINATION_IN_LNSRCH"]))


def arm_fault(ctx, bo, obj, sp, sticky=False):
    """arms one fault for the next call; returns (kind, exceptions that call may raise besides injected ones)"""
    ch = ctx.ch
    m = model_of(bo)
    kinds = ["objective"] + (["shape", "shape", "query", "update"] if m is not None else [])
    k = ch.pick(kinds + (["search"] if m is not None and sp.optimizer == "lbfgs" and not sp.cost and ch.chance(0.3) else []))
    if k == "search":
        break_line_search(ctx, ch.draw(6), ch.chance(0.5))
        return k, ()
    if k == "objective":
        obj.plan = {len(obj.calls) + ch.between(0, 3): ch.pick(["raise", "interrupt", "huge", "mutate", "keyerror", "linalg"])}
        return k, ()
    if k == "shape":
        m.arm(shape=ch.pick(SHAPES if sp.optimizer != "CMA" else SHAPES[:2]))     # CMA resamples non-finite values for ever
        return k, (Exception,)
    exc = ch.pick(["raise", "interrupt", "linalg"])
    if k == "update":
        m.arm(update=ch.between(0, 1), exc=exc)
    else:
        what = ch.pick(["predict", "grad", "fmin"])
        m.arm(exc=exc, **{what: ch.pick([0, 1, 3, 8, 20, 45])})
    return k, ()


def disarm(bo, obj):
    obj.plan = {}
    LINE_SEARCH.pop("fault", None)
    m = model_of(bo)
    if m is not None:
        m.disarm()


def campaign(ctx, dom, sp, obj, bo, judge, rs, nops=4, contexts=0.2, faults=0.4, max_steps=2, model_shape=True):
    """judge(X, where, context): called for every proposal"""
    ch = ctx.ch
    for op in range(ch.between(1, nops)):
        cx = gen_context(ctx, dom, rs, min_free=2 if sp.optimizer == "CMA" else 1) if ch.chance(contexts) else None
        if cx:
            ctx.probe("context")
        allow = (FullyExploredOptimizationDomainError,)
        if ch.chance(faults):
            kind, more = arm_fault(ctx, bo, obj, sp)
            allow += more
        n0 = len(obj.calls)
        if ch.chance(0.45):
            steps = ch.between(1, max_steps)
            before = len(bo.X)
            r, v = api(ctx, "run", lambda: bo.run_optimization(steps, eps=-1, context=cx), allow)
            judge(np.array([c[0] for c in obj.calls[n0:]]).reshape(len(obj.calls) - n0, dom.dim), "evaluated in a run", cx)
            judge(np.array(bo.X[before:], float), "recorded in a run", cx)
        else:
            kw = {}
            if sp.dedup and ch.chance(0.3):
                kw["pending_X"] = dom.draw(rs, 2)
                kw["ignored_X"] = dom.draw(rs, 2)
            r, v = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx, **kw), allow)
            if r == "ok":
                ctx.ev("proposed", v)
                judge(v, "proposed", cx)
        if r == "err":
            ctx.probe("aborted-call")
        disarm(bo, obj)
