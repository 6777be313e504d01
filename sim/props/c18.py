"""Asking a surrogate for predictions never changes it, even when that fails."""
from ..campaign import *
ID = "C18"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 60000}
RULE = ("A run fits a real surrogate (GP, sparse GP, GP with a mean function, GP with sampled hyper-parameters, warped GP, input warped GP; exact or noisy; one or several columns) and then "
        "asks a random sequence of questions (predictions, gradients, covariances, current best, parameters, names, acquisition values and gradients, copies), some of them aborted by an error "
        "or an interrupt at the n-th inner prediction, gradient or recomputation of the regression library, some on inputs that cannot be predicted. After every call the parameters, the "
        "data and the posterior must be as they were after the fit, every repeated question must get its first answer, arrays of the caller and returned arrays are overwritten, copies are "
        "refitted, and the surrogate is refitted in between.")
REAL = ["GPyOpt (models, acquisitions)", "GPy regressions (few optimiser iterations and samples)"]
STUB = ["clock", "OS entropy"]
ASSUMPTIONS = ["failures are injected at calls into the regression library while parameters differ from the fitted ones or nothing has been set yet, one per question; a second failure while parameters are being restored is not injected"]


class Inner:
    """failures at calls into GPy"""
    def __init__(self, ctx):
        import GPy
        self.ctx, self.at, self.exc, self.n, self.fired, self.kinds = ctx, None, None, 0, False, ()
        self.busy = False
        self.fitted = None             # parameters after the fit, of the surrogate under test
        self.gp = None
        for C, names in ((GPy.core.GP, ("predict", "predictive_gradients", "posterior_covariance_between_points", "_raw_predict")),
                         (GPy.models.WarpedGP, ("predict",)), (GPy.models.InputWarpedGP, ("predict",)), (GPy.core.GP, ("parameters_changed",)), (GPy.core.SparseGP, ("parameters_changed",))):
            for n in names:
                if n in C.__dict__:
                    setattr(C, n, self.wrap(C.__dict__[n], n))

    def wrap(self, f, name):
        def g(m, *a, **k):
            if m is self.gp and self.at is not None and not self.fired and name in self.kinds:
                # a recomputation with the fitted parameters is the one that restores them
                if not (name == "parameters_changed" and np.array_equal(m.param_array, self.fitted)):
                    i, self.n = self.n, self.n + 1
                    if i == self.at:
                        self.fired = True
                        late = self.late
                        if late:
                            f(m, *a, **k)
                        self.ctx.fault("surrogate:%s-in-%s" % (self.exc, name))
                        raise {"raise": InjectedError, "interrupt": SimInterrupt, "linalg": InjectedLinAlg, "memory": InjectedMemory}[self.exc](name)
            return f(m, *a, **k)
        return g

    def arm(self, gp, ch):
        self.gp, self.n, self.fired = gp, 0, False
        self.at = ch.weighted([(4, 0), (4, 1), (3, 2), (2, 3), (2, 5), (1, 8)])
        self.exc = ch.pick(["raise", "interrupt", "linalg", "memory"])
        self.late = ch.chance(0.3)
        self.kinds = ch.pick([("predict",), ("predict", "predictive_gradients", "posterior_covariance_between_points"), ("_raw_predict",), ("parameters_changed",), ("predictive_gradients",)])

    def disarm(self):
        self.at = None
        return self.fired


def flat(v):
    """the numbers of an answer"""
    if isinstance(v, (list, tuple)):
        out = [np.array([float(len(v))])]
        for t in v:
            if isinstance(t, str):
                out.append(np.frombuffer(t.encode(), np.uint8).astype(float))
            else:
                out += flat(t)
        return out
    return [np.array(v, float)]


def alike(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-7, atol=1e-9, equal_nan=True) for x, y in zip(a, b))


def scribble(v):
    """the caller overwrites what it was given"""
    if isinstance(v, (list, tuple)):
        for t in v:
            scribble(t)
        if isinstance(v, list):
            del v[:]
    elif isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
        v[...] = 1e3


def run(ctx):
    import GPy
    ch = ctx.ch
    inner = Inner(ctx)
    rs = np.random.RandomState(ch.draw(1 << 20))
    kind = ch.weighted([(6, "GP_MCMC"), (4, "GP"), (2, "sparseGP"), (2, "meanGP"), (1, "warpedGP"), (2, "input_warped_GP")])
    exact = ch.chance(0.4)
    d = ch.between(1, 3)
    ctx.config.update(model=kind, exact=exact, dim=d)
    space = GPyOpt.Design_space([{"name": "x", "type": "continuous", "domain": (0, 1), "dimensionality": d}])
    M = GPyOpt.models
    kern = None
    if ch.chance(0.3) and kind not in ("warpedGP", "input_warped_GP"):
        kern = ch.pick([lambda: GPy.kern.RBF(d), lambda: GPy.kern.Matern52(d) + GPy.kern.Bias(d), lambda: GPy.kern.RBF(d, ARD=True)])()
    ns = 55 if ch.chance(0.02) else ch.between(1, 4)
    if kind == "GP_MCMC":
        m = M.GPModel_MCMC(kernel=kern, exact_feval=exact, n_samples=ns, n_burnin=ch.between(0, 2), subsample_interval=ch.between(1, 2), leapfrog_steps=2, step_size=ch.pick([0.1, 0.02]))
    elif kind == "warpedGP":
        m = M.WarpedGPModel(exact_feval=exact, max_iters=2)
    elif kind == "input_warped_GP":
        m = M.InputWarpedGPModel(space, exact_feval=exact, max_iters=2, optimize_restarts=1, verbose=False)
    else:
        mean = None
        if kind == "meanGP":
            mean = GPy.mappings.Linear(d, 1)
        m = M.GPModel(kernel=kern, exact_feval=exact, max_iters=ch.pick([0, 3]), optimize_restarts=ch.between(1, 2), verbose=False, ARD=ch.chance(0.3), sparse=kind == "sparseGP", num_inducing=3, mean_function=mean)
    X = rs.rand(ch.between(3, 7), d)
    Y = np.sin(5 * X.sum(1, keepdims=True)) + rs.randn(len(X), 1) * 0.1
    sampled = kind == "GP_MCMC"
    Z = X.min(0) + (X.max(0) - X.min(0)) * rs.rand(3, d)
    Z2 = X.min(0) + (X.max(0) - X.min(0)) * rs.rand(2, d)

    # ---- questions
    A = GPyOpt.acquisitions
    opt = GPyOpt.optimization.AcquisitionOptimizer(space)
    acqs = [c(m, space, opt) for c in ([A.AcquisitionEI_MCMC, A.AcquisitionMPI_MCMC, A.AcquisitionLCB_MCMC] if sampled else [A.AcquisitionEI, A.AcquisitionMPI, A.AcquisitionLCB])]
    Q = {"predict": lambda z: m.predict(z), "predict-one": lambda z: m.predict(z[0]), "fmin": lambda z: m.get_fmin()}
    if kind != "warpedGP":
        Q["parameters"] = lambda z: m.get_model_parameters()
        Q["names"] = lambda z: m.get_model_parameters_names()
    if kind not in ("warpedGP", "input_warped_GP"):
        Q["gradients"] = lambda z: m.predict_withGradients(z)
        Q["gradients-one"] = lambda z: m.predict_withGradients(z[0])
        for a in acqs:
            Q["grad-" + type(a).__name__] = lambda z, a=a: a.acquisition_function_withGradients(z)
    if kind in ("GP", "sparseGP", "meanGP"):
        Q["noiseless"] = lambda z: m.predict(z, with_noise=False)
        Q["covariance"] = lambda z: m.predict_covariance(z, with_noise=ch_noise)
        if kind != "sparseGP":
            Q["between"] = lambda z: m.get_covariance_between_points(z, Z2.copy())
    for a in acqs:
        Q["value-" + type(a).__name__] = lambda z, a=a: a.acquisition_function(z)
    ch_noise = ch.chance(0.5)
    names = sorted(Q)

    def snapshot():
        g = m.model
        s = [np.array(g.param_array, float), np.array(g.X, float), np.array(g.Y, float)]
        if sampled:
            s.append(np.array(m.hmc_samples, float))
        inner.busy = True
        s += [np.array(t, float) for t in g.predict(Z.copy())]        # the posterior, below GPyOpt
        return s
    parts = ["parameters", "training inputs", "training outputs"] + (["samples"] if sampled else []) + ["posterior mean", "posterior variance"]

    def unchanged(s0, where):
        s1 = snapshot()
        for p, a, b in zip(parts, s0, s1):
            require(a.shape == b.shape and (np.array_equal(a, b) if "posterior" not in p else np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True)), "changed:" + p.split()[0],
                    lambda: "%s changed the %s of the surrogate (%s) from %s to %s" % (where, p, kind, a.tolist(), b.tolist()))

    fitted = set()
    for epoch in range(ch.between(1, 3)):
        if epoch:
            more = rs.rand(1, d)
            X, Y = np.vstack([X, more]), np.vstack([Y, [[float(rs.randn())]]])
            Z = X.min(0) + (X.max(0) - X.min(0)) * rs.rand(3, d)
        Xg, Yg = X.copy(), Y.copy()
        try:
            m.updateModel(Xg, Yg, None, None)
        except (np.linalg.LinAlgError, ValueError, FloatingPointError):
            ctx.probe("fit-failed")       # not the property's business
            return
        g = m.model
        # questions asked before the snapshot count as well: sampled predictions restore what they found
        if sampled and ch.chance(0.5):
            m.predict(Z.copy())
        g.parameters_changed()
        inner.fitted = np.array(g.param_array, float)
        if not all(np.all(np.isfinite(t)) for t in snapshot()):
            ctx.probe("fit-not-finite")
            return
        s0 = snapshot()
        first, copies = {}, []
        for op in range(ch.between(3, 9)):
            what = ch.weighted([(10, "ask"), (4, "fail"), (1, "bad"), (1, "copy")])
            if what == "copy" and kind in ("warpedGP", "meanGP"):
                what = "ask"
            q = ch.pick(names)
            z = Z.copy()
            if what == "ask":
                r, v = api(ctx, q, lambda: Q[q](z))
                require(np.array_equal(z, Z), "inputs-changed", "%s changed the caller's locations" % q)
                f = flat(v)
                ctx.ev("answer", *f[:4])
                if q in first:
                    ctx.probe("asked-again")
                    require(alike(f, first[q]), "another-answer", lambda: "%s of the %s was answered with %s first and with %s later" % (q, kind, [t.tolist() for t in first[q]], [t.tolist() for t in f]))
                else:
                    first[q] = f
                scribble(v)
                z[...] = -7.0
                unchanged(s0, q)
            elif what == "fail":
                inner.arm(g, ch)
                r, v = api(ctx, q, lambda: Q[q](z), (AttributeError,) if kind == "input_warped_GP" else ())
                fired = inner.disarm()
                require(r == "err" or not fired or q in ("names", "parameters"), "error-lost", "a failing %s returned normally" % q)
                unchanged(s0, "a %s that was aborted" % q if fired else q)
            elif what == "bad":
                bad = ch.pick([np.zeros((2, d + 1)), np.full((2, d), np.nan), np.zeros((0, d)), "nonsense"])
                ctx.fault("surrogate:unpredictable-input")
                r, v = api(ctx, q, lambda: Q[q](bad), (Exception,))
                unchanged(s0, "%s at locations that make no sense (%s)" % (q, r))
            else:
                if ch.chance(0.3):
                    inner.arm(g, ch)
                    inner.kinds = ("predict", "_raw_predict")
                st = np.random.get_state()
                r, c = api(ctx, "copy", lambda: m.copy(), (np.linalg.LinAlgError,))
                inner.disarm()
                unchanged(s0, "copying")
                if r == "ok":
                    require(c is not m and c.model is not g, "copy-shared", "the copy is the surrogate itself")
                    for n in ("X", "Y", "param_array"):
                        require(not np.shares_memory(np.asarray(getattr(c.model, n)), np.asarray(getattr(g, n))), "copy-shared", "the copy shares its %s with the original" % n)
                    require(c.model.kern is not g.kern and c.model.likelihood is not g.likelihood, "copy-shared", "the copy shares its kernel or likelihood with the original")
                    if sampled:
                        require(c.hmc_samples is not m.hmc_samples and not np.shares_memory(c.hmc_samples, m.hmc_samples), "copy-shared", "the copy shares its samples")
                    copies.append((c, flat(c.predict(Z.copy()))))
                    if ch.chance(0.6):
                        api(ctx, "refit the copy", lambda: c.updateModel(X[:3] * 0.5, Y[:3] + 1.0, None, None), (np.linalg.LinAlgError, ValueError))
                        c.model.param_array[:] *= 1.5
                        copies.pop()
                    unchanged(s0, "changing a copy")
        # the copies are not affected by what happens to the original
        if copies:
            before = [f for _, f in copies]
            scr = np.array(g.param_array, float)
            g.param_array[:] = scr * 1.25
            g.parameters_changed()
            for (c, f) in copies:
                require(alike(flat(c.predict(Z.copy())), f), "copy-shared", "changing the parameters of the original changed the copy's predictions")
            g.param_array[:] = scr
            g.parameters_changed()
