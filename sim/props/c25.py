"""What a caller hands over is never altered."""
import copy

from ..campaign import *
from .c13 import Full
ID = "C25"
LEVEL = "exploration"
RUNS = {"quick": 650, "thorough": 60000}
RULE = ("A run is a history of constructions, requests, runs and queries, many aborted by failing objectives, surrogates, local searches or interrupts, of one or two optimizers that are given "
        "the same objects: declaration of the domain, constraints, initial data, contexts, pending and ignored locations, cost arrays, arrays of questions, options and configurations. "
        "Fingerprints of all these objects (types, element types, order, contents) are compared after every call; arrays may be read-only, of integers, or strided views.")
REAL = ["GPyOpt", "scipy L-BFGS-B, cma", "GPy surrogates in 8% of the runs"]
STUB = ["surrogate: TinyGP behind BOModel in the others", "objective", "clock", "OS entropy"]
ASSUMPTIONS = ["kernels and other objects of GPy given to a surrogate are its to train", "arrays returned by a surrogate are the caller's of the surrogate"]


def mark(o):
    """a fingerprint: type, structure, contents"""
    if isinstance(o, np.ndarray):
        return "array", o.dtype.str, o.shape, o.tobytes()
    if isinstance(o, dict):
        return type(o).__name__, [(mark(k), mark(v)) for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return type(o).__name__, [mark(v) for v in o]
    return type(o).__name__, repr(o)


def handed(ctx, A, freeze=True):
    """the array as a caller may hold it: plain, read-only, a strided view"""
    k = ctx.ch.weighted([(4, "plain"), (2, "readonly"), (2, "view"), (1, "fortran")])
    A = np.array(A)
    if k == "view":
        big = np.full((2 * A.shape[0], A.shape[1] + 1), 77.0)
        big[::2, :-1] = A
        return big[::2, :-1]
    if k == "fortran":
        return np.asfortranarray(A)
    if k == "readonly" and freeze:
        A.flags.writeable = False
        ctx.probe("read-only-array")
    return A


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx)
    if dom.arms is None and ch.chance(0.35):
        add_constraints(ctx, dom, min_frac=0.2)
    sp = gen_spec(ctx, dom, real=0.08, dedup=0.35, max_batch=3)
    known = {}

    def keep(name, o):
        known[name] = (o, mark(o), copy.deepcopy(o))
        return o

    def check(where):
        for name, (o, m, old) in known.items():
            if mark(o) != m:
                ctx.bad("altered", "%s: %s was %s, now it is %s" % (where, name, show(old), show(o)))
                return

    def show(o):
        return (o.tolist() if isinstance(o, np.ndarray) else repr(o))
    decl = keep("the declaration of the domain", copy.deepcopy(dom.decl))
    cons = keep("the constraints", dom.constraints())
    # the optimizers are given these very objects
    dom.decls = lambda: decl
    dom.constraints = lambda: cons
    if dom.arms is None and ch.chance(0.25) and sp.evaluator != "local_penalization":
        w = np.arange(1.0, dom.model_dim + 1)
        memo = {}

        def cost(x):
            x = np.atleast_2d(x)
            key = x.tobytes()
            if key not in memo:
                if len(memo) > 40:
                    memo.clear()
                t = np.tanh(x.dot(w)[:, None])
                v = 1.0 + t ** 2, 2 * t * (1 - t ** 2) * w
                memo[key] = v, mark(v)
            v, m = memo[key]
            if mark(v) != m:
                ctx.bad("altered", "an array that the cost function returned (and returns again) was altered")
            return v
        sp["cost"] = cost
    sign = -1.0 if sp.maximize else 1.0
    obj = Objective(ctx, dom)
    bos, records = [], []
    X0 = Y0 = None
    if ch.chance(0.7):
        X0 = dom.draw_feasible(rs, ch.between(2, 5))
        if all(float(x).is_integer() for x in X0.flatten()) and ch.chance(0.5):
            X0 = X0.astype(int)
            ctx.probe("integer-inputs")
        if ch.chance(0.6):
            Y0 = np.array([[sign * obj.value(np.array(x, float))] for x in X0])
            if ch.chance(0.3):
                Y0[ch.draw(len(Y0))] *= ch.pick([1e8, 1e12, -1e8])
            Y0 = keep("the initial outputs", handed(ctx, Y0))
        X0 = keep("the initial inputs", handed(ctx, X0))
    mf = 2 if sp.optimizer == "CMA" else 1
    for i in range(ch.pick([1, 1, 2])):
        if Y0 is None and ch.chance(0.2):
            obj.plan = {len(obj.calls) + ch.draw(3): ch.pick(["raise", "interrupt"])}
        r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, X=X0, Y=Y0))
        check("construction (%s)" % r)
        obj.plan = {}
        if r == "err":
            r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, X=X0, Y=Y0))
            check("construction")
        bos.append(bo)
    for op in range(ch.between(1, 5)):
        bo = ch.pick(bos)
        m = model_of(bo)
        k = ch.weighted([(3, "run"), (4, "suggest"), (2, "query"), (1, "space")])
        allow = Full
        if k in ("run", "suggest"):
            cx = gen_context(ctx, dom, rs, min_free=mf) if ch.chance(0.5) else None
            if cx is not None:
                for n in cx:
                    if float(cx[n]).is_integer() and ch.chance(0.5):
                        cx[n] = int(cx[n])
                cx = keep("the context %d" % op, cx)
            if ch.chance(0.5):
                _, more = arm_fault(ctx, bo, obj, sp)
                allow += more
        if k == "run":
            r, v = api(ctx, "run", lambda: bo.run_optimization(ch.between(1, 2), eps=-1, context=cx), allow)
        elif k == "suggest":
            kw = {}
            if sp.dedup:
                for n in ("pending_X", "ignored_X"):
                    if ch.chance(0.5):
                        kw[n] = keep("%s %d" % (n, op), handed(ctx, dom.draw(rs, ch.between(1, 3))))
            r, v = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx, **kw), allow)
        elif k == "query" and bo.model.model is not None:
            Z = keep("a question %d" % op, handed(ctx, dom.encode(dom.draw(rs, ch.between(1, 3)))))
            what = ch.pick(["predict", "gradients", "acq", "acq-gradients"])
            acq = bo.acquisition.acq if hasattr(bo.acquisition, "acq") else bo.acquisition
            if m is not None and ch.chance(0.4):
                m.arm(exc=ch.pick(["raise", "interrupt", "linalg"]), **{ch.pick(["predict", "grad", "fmin"]): 0})
            if what == "predict":
                f = lambda: bo.model.predict(Z)
            elif what == "gradients":
                f = lambda: bo.model.predict_withGradients(Z)
            elif what == "acq":
                f = lambda: acq.acquisition_function(Z)
            else:
                f = lambda: acq.acquisition_function_withGradients(Z)
            r, v = api(ctx, what, f)
        elif k == "space":
            P = keep("locations %d" % op, handed(ctx, dom.draw(rs, ch.between(1, 3))))
            E = keep("encoded locations %d" % op, handed(ctx, dom.encode(np.array(P, float))))
            s = bo.space
            api(ctx, "unzip", lambda: s.unzip_inputs(P))
            api(ctx, "zip", lambda: s.zip_inputs(E))
            for e in E:
                R = keep("an encoded location", handed(ctx, e[None, :] + (0.25 if s.has_types["categorical"] else 0.0)))
                api(ctx, "round", lambda: s.round_optimum(R))
            api(ctx, "indicator", lambda: s.indicator_constraints(P))
            r = "ok"
        else:
            continue
        if r == "err":
            ctx.probe("aborted-call")
        check("%s (%s)" % (k, r))
        obj.plan = {}
        disarm(bo, obj)
        if ctx.failed:
            return
    obj.intact()
