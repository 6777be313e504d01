"""Every step proposes a full batch of the configured size."""
from ..campaign import *
ID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 360, "thorough": 60000}
RULE = ("A run is a history of requests and runs without de-duplication, with all batch policies and sizes, contexts and constraints, in which the surrogate or the objective fails "
        "at a point drawn uniformly over the queries of a batch (between its members, during penalisation, in a local search). Every step's batch is recorded where the policy "
        "returns it and compared in size and content with the objective's log and the record; batches of the penalisation policy are compared with those of an optimizer without a past.")
REAL = ["GPyOpt", "scipy L-BFGS-B, cma", "GPy surrogates in 6% of the runs"]
STUB = ["surrogate: TinyGP behind BOModel in the others", "objective", "clock", "OS entropy"]


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx, max_dim=3)
    if dom.arms is None and ch.chance(0.3):
        add_constraints(ctx, dom, min_frac=0.25)
    sp = gen_spec(ctx, dom, real=0.06, evaluators=("sequential", "random", "local_penalization", "local_penalization", "thompson_sampling"), max_batch=ch.pick([3, 4, 5, 8]))
    if sp.evaluator == "sequential" and ch.chance(0.4):
        sp["api"], sp["batch"] = "bo", ch.between(2, 4)        # the sequential policy proposes one location whatever the batch size
        if sp.optimizer == "CMA":
            sp["optimizer"] = "lbfgs"
    elif sp.evaluator != "sequential" and ch.chance(0.12):
        sp["batch"], sp["force_batch"] = 1, True
    b = 1 if sp.evaluator == "sequential" else sp.batch
    ctx.config["batch"] = sp.batch
    mf = 2 if sp.optimizer == "CMA" else 1
    obj = Objective(ctx, dom, shape=ch.pick(["(1,1)", "scalar"]))
    sign = -1.0 if sp.maximize else 1.0
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp))
    batches = []
    real = bo.evaluator.compute_batch

    def compute(*a, **k):
        v = real(*a, **k)
        batches.append(np.array(v, float))
        return v
    bo.evaluator.compute_batch = compute
    m = model_of(bo)
    counts = dict(predict=0, grad=0, fmin=0)
    rows = [c[0] for c in obj.calls]

    def full(v, where):
        require(isinstance(v, np.ndarray) and v.ndim == 2 and v.shape == (b, dom.dim), "batch-size",
                lambda: "%s: %s locations of %s entries, the batch size is %d (%d entries)" % (where, np.shape(v)[0] if np.ndim(v) else "?", np.shape(v)[1:] or "?", b, dom.dim))

    def recorded(where):
        require(bo.X.shape == (len(rows), dom.dim) and len(bo.Y) == len(rows), "record", lambda: "%s: %d inputs and %d outputs recorded, %d evaluated" % (where, len(bo.X), len(bo.Y), len(rows)))
        require(np.array_equal(bo.X, np.array(rows)), "record", "%s: the recorded inputs are not the evaluated ones" % where)

    def twin():
        o = Objective(ctx, dom, seed=1)
        o.opt, o.amp, o.off = obj.opt, obj.amp, obj.off
        return build(ctx, dom, o, sp, X=np.array(bo.X), Y=np.array(bo.Y))
    for op in range(ch.between(2, 5 if sp.model == "tiny" else 3)):
        cx = gen_context(ctx, dom, rs, min_free=mf) if ch.chance(0.3) else None
        faulty = ch.chance(0.45)
        if faulty:
            if m is not None and ch.chance(0.75):
                known = [w for w in counts if counts[w]]
                what = ch.pick(known or ["predict"])
                m.arm(exc=ch.pick(["raise", "linalg", "interrupt"]), **{what: ch.draw(max(2, counts[what]))})
            else:
                obj.plan = {len(obj.calls) + ch.draw(2 * b): ch.pick(["raise", "interrupt", "memory"])}
        elif m is not None:
            m.arm()
        del batches[:]
        if ch.chance(0.5):
            r, v = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx))
            if r == "ok":
                full(v, "request")
                if m is not None and not faulty:
                    counts = {w: m.n[w] for w in counts}
        else:
            n, n0 = ch.between(1, 2), len(obj.calls)
            r, v = api(ctx, "run", lambda: bo.run_optimization(n, eps=-1, context=cx))
            done = [c for c in obj.calls[n0:] if c[1] is not None]
            whole = len(done) // b
            if r == "ok":
                # every failure that run_optimization handles itself (LinAlgError of the fit) ends the run early, at a batch boundary
                require(len(done) == b * whole and len(obj.calls) - n0 == len(done), "batch-size", "a completed run evaluated %d locations in batches of %d" % (len(done), b))
                require(whole == n, "batch-size", "a run of %d steps with batches of %d evaluated %d locations" % (n, b, len(done)))
                require(len(batches) == n, "steps", "a run of %d steps computed %d batches" % (n, len(batches)))
            for i, B in enumerate(batches):
                B = bo.space.zip_inputs(B)
                full(B, "step %d of a run" % i)
                got = [c[0] for c in obj.calls[n0 + i * b:n0 + (i + 1) * b]]
                require(len(got) <= b and all(np.array_equal(g, x) for g, x in zip(got, B)) if r == "err" else (len(got) == b and np.array_equal(np.array(got), B)), "evaluated",
                        lambda: "step %d of a run proposed %s and evaluated %s" % (i, B.tolist(), [g.tolist() for g in got]))
            rows += [c[0] for c in done[:whole * b]]
        if r == "err":
            ctx.probe("aborted-in-a-batch")
        if m is not None:
            m.disarm()
        obj.plan = {}
        recorded("after a %s" % ("request" if not batches else "call"))
        if r == "err" or ch.chance(0.25):
            # the next one is full-sized again, and nothing is left of the aborted one
            s = ch.draw(1 << 30)
            cx = gen_context(ctx, dom, rs, min_free=mf) if ch.chance(0.2) else None
            np.random.seed(s)
            r, v = api(ctx, "suggest", lambda: bo.suggest_next_locations(context=cx))
            full(v, "request after an aborted one")
            if sp.model == "tiny" and sp.evaluator == "local_penalization":
                tw = twin()
                np.random.seed(s)
                r, w = api(ctx, "twin suggest", lambda: tw.suggest_next_locations(context=cx))
                full(w, "request")
                require(same(v[:1], w[:1]), "first-member", lambda: "the first member of the batch is %s, without earlier batches it is %s" % (v[0].tolist(), w[0].tolist()))
                ctx.probe("first-member-compared")
