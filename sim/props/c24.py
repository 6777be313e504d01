"""Proposals optimise the acquisition."""
from scipy.special import erfc

from ..campaign import *
from ..campaign import break_line_search, LINE_SEARCH
from .c13 import Full, user_cost
ID = "C24"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 60000}
RULE = ("A run is a history of requests and runs (contexts, constraints, pending locations, batches, evaluation costs, update intervals, aborted calls, local searches that break down) over a domain "
        "whose free variables are continuous, or over a domain of numeric variables with a surrogate that is linear in them. The surrogate's moments give the judge the acquisition by its published "
        "formula; the first location of every batch is compared with all the locations the search scored before its first local search, and, for linear surrogates, with the best corner.")
REAL = ["GPyOpt", "scipy L-BFGS-B"]
STUB = ["surrogate: TinyGP (or one linear in the inputs) behind BOModel", "objective", "clock", "OS entropy", "abnormal terminations of L-BFGS-B"]
ASSUMPTIONS = ["the location scored best is compared only while local searches are done by L-BFGS (CMA may end worse than where it started)"]


def acq_value(name, jitter, weight, fmin, m, s, cost):
    """the published formulas"""
    s = np.maximum(s, 1e-10)
    if name == "LCB":
        return (-m + weight * s)[:, 0]
    u = (fmin - m - jitter) / s
    Phi = 0.5 * erfc(-u / np.sqrt(2))
    if name == "MPI":
        v = Phi
    else:
        v = s * (u * Phi + np.exp(-0.5 * u ** 2) / np.sqrt(2 * np.pi))
    return (v / cost)[:, 0]




def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    corner = ch.chance(0.3)
    dom = gen_dom(ctx, kinds=("cont", "mixed") if corner else ("cont", "cont", "mixed"), max_dim=3 if corner else 4, cats=not corner)
    free = [j for j, v in enumerate(dom.vars) if v.kind == "continuous"]
    fixed = [j for j, v in enumerate(dom.vars) if v.kind != "continuous"]
    if not free:
        dom.add("c", "continuous", ch.pick(BOUNDS))
        free.append(len(dom.vars) - 1)
    if not corner and ch.chance(0.4):
        add_constraints(ctx, dom, n=1, min_frac=0.2)
    sp = gen_spec(ctx, dom, evaluators=("sequential", "random", "local_penalization", "local_penalization"), dedup=0.3, optimizers=False, max_batch=3,
                  acqs=("LCB", "LCB", "EI", "MPI") if corner else ("LCB", "EI", "LCB", "MPI") if dom.cons else ("EI", "LCB", "MPI"))
    if ch.chance(0.2) and sp.evaluator != "local_penalization" and not corner:
        sp["cost"] = user_cost(dom)
    ctx.config["corner"] = corner
    obj = Objective(ctx, dom)
    coef = None
    if corner:
        coef = np.array([ch.pick([1.0, -1.0]) * ch.pick([1.0, 0.3, 3.0]) for _ in dom.vars])
        r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, model=Slope(ctx, dom.scale(), coef)))
    else:
        r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp))
    m = bo.model
    st = dict(rows=None, searched=False, cx=None, pend=None, n0=None, checked=0)
    predict = m.predict

    def fired():
        """how many local searches the fault of campaign.break_line_search has seen"""
        f = LINE_SEARCH.get("fault")
        return f["n"] if f else 0

    def seen(X, *a, **k):
        if st["rows"] is not None and fired() > st["fired"]:
            st["searched"] = True
        if st["rows"] is not None and not st["searched"]:
            st["rows"].append(np.array(np.atleast_2d(X), float))
        return predict(X, *a, **k)
    m.predict = seen
    import scipy.optimize
    real = bo.evaluator.compute_batch

    def acq(X):
        mm, s = m._moments(X)
        fmin = float(m._moments(m.Xt)[0].min())
        cost = sp.cost(X)[0] if sp.cost else np.ones((len(X), 1))
        return acq_value(sp.acq, 0.01, 2, fmin, mm, s, cost)

    def compute(*a, **k):
        st["rows"], st["searched"] = [], False
        lb, mi = scipy.optimize._lbfgsb_py, scipy.optimize._minimize       # every way into L-BFGS-B
        real_l, real_m = lb._minimize_lbfgsb, mi._minimize_lbfgsb
        st["fired"] = fired()

        def search(*a, **k):
            st["searched"] = True
            return real_l(*a, **k)
        lb._minimize_lbfgsb = mi._minimize_lbfgsb = search
        try:
            B = np.atleast_2d(np.array(real(*a, **k), float))
        finally:
            rows, st["rows"] = st["rows"], None
            st["searched"] = st["searched"] or fired() > st["fired"]
            lb._minimize_lbfgsb, mi._minimize_lbfgsb = real_l, real_m
        if "shape" in m.fault:
            return B
        try:
            judge(B, rows)
        except Violation as v:
            ctx.bad(v.kind, v.msg)
        return B

    def judge(B, rows):
        st["checked"] += 1
        cx = st["cx"] or {}
        names = [v.name for v in dom.vars]
        if corner:
            if sp.acq != "LCB":
                return
            want = np.array([cx[n] if n in cx else float(min(v.dom) if c > 0 else max(v.dom)) for n, v, c in zip(names, dom.vars, coef)])
            if sp.dedup:
                known = [r for r in np.vstack([bo.X] + ([st["pend"]] if st["pend"] is not None else []))]
                if any(np.array_equal(want, k) for k in known):
                    ctx.probe("corner-known")
                    return
            wd = np.array([(float(max(v.dom)) - float(min(v.dom))) or 1.0 for v in dom.vars])
            if st["broken"]:
                return
            # (L-BFGS may give up where a variable's whole range is as small as its own tolerances: there the best of the locations scored is all that is asked for)
            tol = np.where(wd < 0.01, 0.1, 0.05 if sp.nograd else 1e-4)
            if np.any(wd < 0.01):
                tol = np.maximum(tol, 0.15)
            require(np.all(np.abs(B[0] - want) <= tol * wd), "not-optimal", lambda: "%s falls towards %s in %s, proposed is %s" % ("the surrogate", want.tolist(), dom.describe(), B[0].tolist()))
            ctx.probe("corner-reached")
            return
        if [j for j in fixed if names[j] not in cx] or not rows or not st["searched"]:
            return
        rows = np.unique(np.vstack(rows), axis=0)
        skip = {tuple(r) for r in dom.encode(np.vstack([bo.X] + ([st["pend"]] if st["pend"] is not None else [])))}
        rows = np.array([r for r in rows if tuple(r) not in skip])
        if not len(rows):
            return
        zipped = decode(dom, rows)
        ok = dom.feasible(zipped) & np.array([dom.member(z) for z in zipped])
        for n, v in cx.items():
            ok &= zipped[:, names.index(n)] == v
        rows = rows[ok]
        if not len(rows):
            return
        v = acq(rows)
        a = acq(B[:1])[0]
        best = v.max()
        tol = 1e-7 * max(abs(best), abs(v).max() * 1e-3 if sp.acq == "LCB" else 0.0) + (1e-40 if sp.evaluator != "local_penalization" else 1e-45)
        require(a >= best - tol, "worse-than-scored", lambda: "the first location %s has the acquisition %r (%s), %s was scored with %r" % (B[0].tolist(), a, sp.acq, rows[np.argmax(v)].tolist(), best))
        ctx.probe("compared")
        if a > best:
            ctx.probe("improved-by-local-search")
    bo.evaluator.compute_batch = compute
    for op in range(ch.between(1, 4)):
        need = {dom.vars[j].name for j in fixed} if not corner else set()
        cx = gen_context(ctx, dom, rs) if (need or ch.chance(0.3)) else None
        if need:
            p = dom.draw_feasible(rs, 1)[0]
            cx = {dom.vars[j].name: float(p[j]) for j in fixed}
            if len(free) > 1 and ch.chance(0.3):
                cx[dom.vars[free[0]].name] = float(p[free[0]])
            if dom.cons:
                S = dom.draw(rs, 600)
                for j, v in enumerate(dom.vars):
                    if v.name in cx:
                        S[:, j] = cx[v.name]
                if dom.feasible(S).mean() < 0.05:
                    continue
        allow = Full
        st["broken"] = False
        if ch.chance(0.45):
            k = ch.pick(["objective", "query", "query", "search", "shape"])
            if k == "search" and not sp.cost:
                st["broken"] = ch.chance(0.5)        # (a single broken search leaves the others)
                break_line_search(ctx, ch.pick([0, 0, 1, 3, 5]), st["broken"])
            elif k == "objective":
                obj.plan = {len(obj.calls) + ch.between(0, 3): ch.pick(["raise", "interrupt", "huge"])}
            elif k == "shape":
                m.arm(shape=ch.pick(["flat", "saturated", "nan", "inf"]))
                allow = (Exception,)
            elif k == "query":
                m.arm(exc=ch.pick(["raise", "interrupt", "linalg"]), **{ch.pick(["predict", "grad", "fmin"]): ch.pick([0, 3, 15, 35, 50, 70, 100, 150])})
        st["cx"], st["pend"] = cx, None
        if ch.chance(0.4):
            r, v = api(ctx, "run", lambda: bo.run_optimization(ch.between(1, 3), eps=-1, context=cx), allow)
        else:
            kw = {}
            if sp.dedup and ch.chance(0.4):
                st["pend"] = dom.draw(rs, 2)
                kw["pending_X"] = st["pend"].copy()
            r, v = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx, **kw), allow)
            if r == "ok":
                ctx.ev("proposed", v)
        if r == "err":
            ctx.probe("aborted-call")
        disarm(bo, obj)
        if ctx.failed:
            return


def decode(dom, rows):
    """encoded rows back to rows of the domain (one-hot groups: the position of the one)"""
    out, k = [], 0
    for v in dom.vars:
        if v.kind == "categorical":
            out.append(np.argmax(rows[:, k:k + len(v.dom)], axis=1).astype(float))
            k += len(v.dom)
        else:
            out.append(rows[:, k])
            k += 1
    return np.array(out).T
