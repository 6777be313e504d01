"""A save that returns has written a complete, exact file; one that fails says so."""
import errno
import os

from ..campaign import *
ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 650, "thorough": 60000}
RULE = ("A run is a history of runs, requests and saves (evaluations, surrogate parameters, report; on request or from a run; new files and existing ones) on a simulated disk that "
        "writes only a part of what it is given, fills up, fails at the n-th write, at opening or at closing, or is interrupted. The files are read back with an independent "
        "parser and compared with the record and with the parameters the surrogate had after each fit; a second optimizer is restarted from the file.")
REAL = ["GPyOpt", "Python's file buffering and csv module", "scipy L-BFGS-B", "GPy surrogates where model parameters are saved (30% of the runs)"]
STUB = ["disk: raw reads and writes below Python's buffers", "surrogate: TinyGP behind BOModel in the others", "objective", "clock", "OS entropy"]
ASSUMPTIONS = ["a crash of the whole process during a save is not simulated: the code promises nothing about it"]


def parse(path):
    """rows of a saved table (independent of the csv module)"""
    with seams.REAL["open"](path, "rb") as f:
        data = f.read()
    text = data.decode()
    require(text == "" or text.endswith("\n"), "torn-file", "the last line of the saved file is not complete: %r" % text[-60:])
    return [l.rstrip("\r").split("\t") for l in text.split("\n")[:-1]]


def gen_disk(ctx):
    ch = ctx.ch
    p = {}
    k = ch.weighted([(3, "none"), (3, "short"), (3, "write"), (3, "full"), (2, "open"), (2, "close"), (1, "interrupt")])
    p["buf"] = ch.pick([8192, 64, 16, 300])
    if k == "short":
        p["short"] = ch.pick([2, 3, 10])
    elif k == "write":
        p["write_at"] = ch.pick([0, 1, 2, 5])
        if ch.chance(0.5):
            p["write_n"] = 1
    elif k == "full":
        p["full_at"] = ch.pick([0, 1, 10, 40, 200, 900])
    elif k == "open":
        p["open"] = ch.pick([errno.EACCES, errno.ENOSPC, errno.EMFILE])
    elif k == "close":
        p["close"] = ch.pick([errno.EIO, errno.ENOSPC])
    elif k == "interrupt":
        p["interrupt_at"] = ch.pick([0, 1, 3])
    if k != "short" and ch.chance(0.2):
        p["short"] = 2
    return p


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx)
    sp = gen_spec(ctx, dom, real=0.3, optimizers=False, dedup=0.1)
    if dom.finite:
        sp["dedup"] = False
    obj = Objective(ctx, dom, shape=ch.pick(["(1,1)", "scalar"]))
    if ch.chance(0.5):
        obj.duration = lambda k: 0.25 * (1 + k % 3)
    if sp.model == "tiny" and not sp.normalize and not sp.cost and ch.chance(0.3):
        # some evaluations fail with the worst possible value
        plain, worst, at = obj.value, (np.inf if not sp.maximize else -np.inf), {sp.n_init + ch.between(1, 12) for _ in range(2)}
        obj.value = lambda row: worst if len(obj.calls) in at else plain(row)
        ctx.config["infinite"] = True
    bo = build(ctx, dom, obj, sp)
    fs = seams.SimFS(ctx, ctx.scratch)
    seams.W.fs = fs
    fits = []                     # surrogate parameters after each fit of the last run or request
    real_update = bo.model.updateModel

    def update(*a, **k):
        real_update(*a, **k)
        fits.append(np.array(bo.model.model.param_array, float) if sp.model != "tiny" else bo.model.get_model_parameters()[0])
    bo.model.updateModel = update
    # ---- what the record must be, from the objective's own log
    sign = -1.0 if sp.maximize else 1.0
    b = sp.batch or 1
    names = ["r1", "r2", "r3"]
    st = dict(rows=0, iters=None, done=True)

    def table(kind):
        if kind == "evaluations":
            X = np.array([c[0] for c in obj.calls])
            Y = np.array([sign * c[1] for c in obj.calls])
            return ["Iteration", "Y"] + ["var_%d" % k for k in range(1, dom.dim + 1)], [[i + 1.0, Y[i]] + list(X[i]) for i in range(len(X))]
        n, iv = st["iters"], sp.interval or 1
        return None, [[i + 1.0] + list(fits[i // iv]) for i in range(n)]

    def verify(kind, path):
        if kind == "report":
            with seams.REAL["open"](path, "rb") as f:
                lines = f.read().decode().split("\n")
            require(lines[-1] == "" and len(lines) > 3 and set(lines[-2]) == {"-"}, "torn-file", "the report does not end with its last line: %r" % lines[-3:])
            d = {}
            for l in lines:
                if ": " in l:
                    d.setdefault(l.split(": ", 1)[0].strip(), l.split(": ", 1)[1].strip())
            Y = [sign * c[1] for c in obj.calls]
            v = float(d["Value at minimum"])
            require(abs(v - min(Y)) <= 1e-6 * max(1.0, abs(v)), "report", "the report says minimum %r, the record's is %r" % (v, min(Y)))
            loc = np.array([float(t) for t in " ".join(lines[lines.index([l for l in lines if l.startswith("Best found minimum location")][0]):-2]).split(": ", 1)[1].replace("[", " ").replace("]", " ").split()])
            want = obj.calls[int(np.argmin(Y))][0]
            require(loc.shape == want.shape and np.allclose(loc, want, rtol=1e-5, atol=1e-7 * max(1.0, np.abs(want).max())), "report", "the report says the best location is %s, it is %s" % (loc, want))
            require(("%d samples collected" % len(Y)) in d["Optimization completed"], "report", "the report says %r, there are %d evaluations" % (d["Optimization completed"], len(Y)))
            require(int(d["Problem dimension"]) == dom.dim, "report", "the report says dimension %s" % d["Problem dimension"])
            return
        T = parse(path)
        head, rows = table(kind)
        if kind == "evaluations":
            require(T and T[0] == head, "header", "the header is %r, expected %r" % (T[:1], head))
        else:
            require(T and T[0][0] == "Iteration" and len(T[0]) == len(rows[0]), "header", "the header is %r for %d parameters" % (T[:1], len(rows[0]) - 1))
        require(len(T) - 1 == len(rows), "rows", "%s: the file has %d rows, the record %d" % (kind, len(T) - 1, len(rows)))
        for i, (got, want) in enumerate(zip(T[1:], rows)):
            v = [float(t) for t in got]
            require(len(v) == len(want) and all(a == c or (a != a and c != c) for a, c in zip(v, want)), "values", "%s: row %d reads back as %s, recorded is %s" % (kind, i + 1, v, list(want)))

    def state():
        m = bo.model
        out = [bo.X.copy(), bo.Y.copy(), None if bo.model_parameters_iterations is None else np.array(bo.model_parameters_iterations)]
        if m.model is not None:
            out.append(np.array(m.get_model_parameters()))
        for n in ("x_opt", "fx_opt", "Y_best", "cum_time", "num_acquisitions"):
            if getattr(bo, n, None) is not None:
                out.append(np.array(getattr(bo, n), float))
        return out

    ran = False
    for op in range(ch.between(2, 6)):
        k = ch.weighted([(2, "run"), (1, "suggest"), (5, "save")])
        kinds = ["evaluations", "report", "models"]
        if k == "suggest":
            del fits[:]
            api(ctx, "suggest", lambda: bo.suggest_next_locations(), (FullyExploredOptimizationDomainError,))
            st["iters"] = 1
            continue
        if k == "run":
            steps = ch.between(0, 1 if sp.model == "GP_MCMC" else 3)
            files = {}
            for kind in ch.subset(kinds, 0.4):
                files[kind] = os.path.join(ctx.scratch, "%s-%s" % (kind, ch.pick(names)))
            plan = gen_disk(ctx) if files and ch.chance(0.6) else None
            fs.arm(plan or {})
            del fits[:]
            n0 = len(obj.calls)
            mt = 0.9 if (obj.duration is not None and ch.chance(0.3)) else np.inf
            r, v = api(ctx, "run", lambda: bo.run_optimization(steps, eps=-1, max_time=mt, evaluations_file=files.get("evaluations"),
                                                               report_file=files.get("report"), models_file=files.get("models")), (OSError,))
            fired = fs.disarm()
            done = (len(obj.calls) - n0) // b
            spent = sum(obj.duration(k) for k in range(n0, len(obj.calls))) if obj.duration is not None else 0.0
            st["iters"] = done + 1 if spent < mt else done
            ran = True
            if files:
                require(r == "ok" or fired, "error-without-fault", "a run with files failed with %s though the disk worked" % v)
                require(r == "err" or not fired, "silent-failure", "storage failed (%s) but the run returned normally" % fired)
                if r == "ok":
                    for kind, path in files.items():
                        require(os.path.exists(path), "no-file", "a run that returned has not written its %s file" % kind)
                        verify(kind, path)
            else:
                require(r == "ok", "error-without-fault", "a run without files failed: %s" % v)
            require(len(bo.X) == len(obj.calls) and len(bo.Y) == len(obj.calls), "record", "%d calls, %d rows recorded after the run" % (len(obj.calls), len(bo.X)))
            continue
        kind = ch.pick(kinds)
        if kind == "report" and not ran:
            kind = "evaluations"
        if kind == "models" and st["iters"] is None:
            kind = "evaluations"
        path = os.path.join(ctx.scratch, "%s-%s" % (kind, ch.pick(names)))
        if ch.chance(0.05):
            path = os.path.join(ctx.scratch, "missing", "x")
        if os.path.exists(path):
            ctx.probe("overwrites-a-file")
        save = {"evaluations": bo.save_evaluations, "report": bo.save_report, "models": bo.save_models}[kind]
        s0 = state()
        fs.arm(gen_disk(ctx))
        r, v = api(ctx, "save " + kind, lambda: save(path), (OSError,))
        fired = fs.disarm()
        s1 = state()
        require(len(s0) == len(s1) and all(same(a, c) for a, c in zip(s0, s1)), "state-changed", "saving the %s (%s) changed the optimizer" % (kind, r))
        if "missing" in path:
            require(r == "err", "silent-failure", "saving into a directory that does not exist returned normally")
            continue
        require(r == "ok" or fired, "error-without-fault", "saving the %s failed with %s though the disk worked" % (kind, v))
        require(r == "err" or not fired, "silent-failure", "storage failed (%s) but saving the %s returned normally" % (fired, kind))
        if r == "ok":
            verify(kind, path)
        else:
            ctx.probe("save-failed")
            if ch.chance(0.7):
                r, v = api(ctx, "save again", lambda: save(path), ())
                verify(kind, path)
    # ---- a new optimizer restarted from the file
    path = os.path.join(ctx.scratch, "evaluations-last")
    bo.save_evaluations(path)
    verify("evaluations", path)
    seams.W.fs = None
    if sp.model == "tiny" and bo.Y is not None:
        T = np.array([[float(t) for t in row] for row in parse(path)[1:]])
        other = build(ctx, dom, Objective(ctx, dom, seed=1), sp, X=T[:, 2:].copy(), Y=T[:, 1:2].copy())
        s = ch.draw(1 << 30)
        np.random.seed(s)
        r, want = api(ctx, "suggest", lambda: bo.suggest_next_locations(), (FullyExploredOptimizationDomainError,))
        np.random.seed(s)
        r2, got = api(ctx, "suggest after restart", lambda: other.suggest_next_locations(), (FullyExploredOptimizationDomainError,))
        require(r == r2 and (r == "err" or same(want, got)), "restart", lambda: "the original proposes %s, the one restarted from the file %s" % (np.asarray(want).tolist(), np.asarray(got).tolist()))
