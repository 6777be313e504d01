"""Problems, objectives, surrogates and optimizers of simulated runs, and the independent judge of locations.

Nothing here takes an expected value from GPyOpt: membership, encoding, constraints, best values are computed again."""
import itertools
import math

import numpy as np

import GPyOpt
from GPyOpt.models.base import BOModel
from GPyOpt.core.errors import FullyExploredOptimizationDomainError

from . import seams
from .core import HarnessError, SimInterrupt, Violation, require

TOL = 1e-9


class InjectedError(RuntimeError):
    """a fault of the simulator"""


INJECTED = (InjectedError, SimInterrupt)


# ------------------------------------------------------------------------------------------------ domains
class Var:
    def __init__(self, name, kind, dom):
        self.name, self.kind, self.dom = name, kind, dom

    def member(self, v):
        if self.kind == "continuous":
            return bool(np.isfinite(v)) and self.dom[0] <= v <= self.dom[1]
        if self.kind == "discrete":
            return any(float(v) == float(d) for d in self.dom)
        if self.kind == "categorical":
            return any(float(v) == float(d) for d in range(len(self.dom)))
        raise HarnessError(self.kind)

    def draw(self, rs):
        if self.kind == "continuous":
            return self.dom[0] + (self.dom[1] - self.dom[0]) * rs.rand()
        return float(self.dom[rs.randint(len(self.dom))])


class Dom:
    """a declared domain (list of variable dictionaries for GPyOpt, plus the same thing for the judge)"""
    def __init__(self):
        self.decl, self.vars = [], []
        self.arms = None
        self.cons = []              # (string, python function of the rows)
        self.cons_style = None
        self.extra = None

    # -- construction
    def add(self, name, kind, dom, dimensionality=None, as_tuple=True):
        d = {"name": name, "type": kind, "domain": dom}
        if dimensionality is not None:
            d["dimensionality"] = dimensionality
        self.decl.append(d)
        n = dimensionality or 1
        for i in range(n):
            self.vars.append(Var(name if n == 1 else "%s_%d" % (name, i + 1), kind, dom))

    @property
    def dim(self):
        return self.arms.shape[1] if self.arms is not None else len(self.vars)

    @property
    def finite(self):
        return self.arms is not None or all(v.kind != "continuous" for v in self.vars)

    @property
    def has_cat(self):
        return any(v.kind == "categorical" for v in self.vars)

    @property
    def model_dim(self):
        return self.dim if self.arms is not None else sum(len(v.dom) if v.kind == "categorical" else 1 for v in self.vars)

    @property
    def ncont(self):
        return sum(v.kind == "continuous" for v in self.vars)

    def decls(self):
        """a fresh declaration (GPyOpt never shares our objects)"""
        import copy
        return copy.deepcopy(self.decl)

    def constraints(self):
        if not self.cons:
            return None
        if self.cons_style == "same":
            return [{"name": "constraint", "constraint": c[0]} for c in self.cons]
        if self.cons_style == "unnamed":
            return [{"constraint": c[0]} for c in self.cons]
        if self.cons_style == "old":        # the misspelled key of older versions is still accepted
            return [{"name": "c%d" % i, "constrain": c[0]} for i, c in enumerate(self.cons)]
        return [{"name": "c%d" % i, "constraint": c[0]} for i, c in enumerate(self.cons)]

    # -- the judge
    def member(self, row):
        if self.arms is not None:
            return any(np.array_equal(row, a) for a in self.arms)
        return all(v.member(x) for v, x in zip(self.vars, row))

    def check(self, X, where, constraints=True):
        """raises if X is not a list of members of the domain"""
        require(isinstance(X, np.ndarray) and X.ndim == 2, "shape", "%s: not a 2d array: %r" % (where, X))
        require(X.shape[1] == self.dim, "shape", "%s: %d columns, declared %d" % (where, X.shape[1], self.dim))
        for i, row in enumerate(X):
            if not self.member(row):
                raise Violation("outside-domain", "%s: row %d = %s is not a member of the domain %s" % (where, i, row.tolist(), self.describe()))
            if constraints:
                self.check_constraints(row, where)

    def check_constraints(self, row, where):
        for s, f in self.cons:
            v = float(f(np.atleast_2d(row))[0])
            if not v <= TOL:
                raise Violation("constraint", "%s: %s violates %s <= 0 (value %r)" % (where, row.tolist(), s, v))

    def feasible(self, X):
        ok = np.ones(len(X), bool)
        for _, f in self.cons:
            ok &= f(X) <= 0
        return ok

    def encode(self, X):
        """what the surrogate must be given for the locations X"""
        if self.arms is not None:
            return np.array(X, float)
        cols = []
        for j, v in enumerate(self.vars):
            if v.kind == "categorical":
                Z = np.zeros((len(X), len(v.dom)))
                for i in range(len(X)):
                    Z[i, int(X[i, j])] = 1.0
                cols.append(Z)
            else:
                cols.append(np.array(X[:, [j]], float))
        return np.hstack(cols)

    def points(self):
        """all members of a finite domain"""
        if self.arms is not None:
            return [tuple(a) for a in np.unique(self.arms, axis=0)]
        return list(itertools.product(*[sorted({float(d) for d in v.dom}) if v.kind == "discrete" else [float(i) for i in range(len(v.dom))] for v in self.vars]))

    def draw(self, rs, n):
        if self.arms is not None:
            return self.arms[rs.randint(len(self.arms), size=n)].astype(float)
        return np.array([[v.draw(rs) for v in self.vars] for _ in range(n)], float).reshape(n, len(self.vars))

    def draw_feasible(self, rs, n):
        out = []
        for _ in range(400):
            X = self.draw(rs, max(20, n))
            out += [x for x in X[self.feasible(X)]]
            if len(out) >= n:
                return np.array(out[:n])
        raise HarnessError("no feasible points")

    def scale(self):
        """per encoded column (low, high)"""
        if self.arms is not None:
            return [(float(self.arms[:, j].min()), float(self.arms[:, j].max())) for j in range(self.dim)]
        out = []
        for v in self.vars:
            if v.kind == "categorical":
                out += [(0.0, 1.0)] * len(v.dom)
            else:
                out.append((float(min(v.dom)), float(max(v.dom))))
        return out

    def describe(self):
        if self.arms is not None:
            return "bandit%s" % (self.arms.tolist(),)
        return "; ".join("%s:%s%s" % (v.name, v.kind, tuple(v.dom)) for v in self.vars)

    def kind(self):
        if self.arms is not None:
            return "bandit"
        ks = sorted({v.kind[:4] for v in self.vars})
        return "+".join(ks)


BOUNDS = [(0.0, 1.0), (-1.0, 1.0), (0, 10), (-5.0, -1.0), (0.0, 1e-3), (-1e3, 2e3), (1.0, 1.5), (-2.0, 0.0), (1e5, 1e5 + 0.5)]
LISTS = [(0, 1, 2), (0.0, 0.5, 1.0), (-1.0, 0.0, 1.0, 2.0), (10, 1, 5), (0.1, 0.2, 0.3), (-3, 7), (2.5, 100.0, 3.5, 4.0), (0, 1),
         (0, 2, 4, 8), (0, 10, 20), (0.0, 2e-9, 5e-9), (100000, 100001, 100003)]


def gen_dom(ctx, kinds=("cont", "mixed", "finite", "bandit"), max_dim=3, min_cont=0, cats=True, lists=None):
    ch = ctx.ch
    kind = ch.pick(list(kinds))
    d = Dom()
    if kind == "bandit":
        n, k = ch.between(2, 6), ch.between(1, 3)
        rs = np.random.RandomState(ch.draw(1 << 20))
        arms = rs.randint(-3, 4, size=(n, k)) * (0.5 if ch.chance(0.5) else 1.0)
        d.arms = np.unique(arms.astype(float), axis=0)
        if len(d.arms) < 2:
            d.arms = np.vstack([d.arms, d.arms[-1:] + 1.0])
        d.decl = [{"name": "arms", "type": "bandit", "domain": d.arms.copy()}]
        ctx.config["domain"] = "bandit"
        return d
    n = ch.between(1, max_dim)
    left = n
    i = 0
    while left > 0:
        if kind == "cont":
            t = "continuous"
        elif kind == "finite":
            t = ch.pick(["discrete", "categorical"]) if cats else "discrete"
        else:
            t = ch.pick(["continuous", "discrete", "categorical"]) if cats else ch.pick(["continuous", "discrete"])
        if d.ncont < min_cont and left <= min_cont - d.ncont:
            t = "continuous"
        rep = None
        if ch.chance(0.25):
            rep = ch.between(1, left)
        name = ch.pick(["var_%d" % (i + 1), "v%d" % i, "x%d" % i])
        if t == "continuous":
            dom = ch.pick(BOUNDS)
        elif t == "discrete":
            dom = ch.pick(lists or LISTS)
        else:
            dom = tuple(range(ch.pick([2, 3, 2, 3, 4])))
        if t == "discrete" and ch.chance(0.15):
            dom = ch.pick([list(dom), np.array(dom)])
        d.add(name, t, dom, rep)
        left -= rep or 1
        i += 1
    ctx.config["domain"] = d.kind()
    return d


def add_constraints(ctx, d, n=None, min_frac=0.12):
    """one to three constraints that cut a part of the domain but leave at least min_frac of it"""
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    n = n or ch.pick([1, 2, 2, 3])
    S = d.draw(rs, 600)
    sc = []
    for j, v in enumerate(d.vars):
        lo, hi = float(min(v.dom)), float(max(v.dom))
        sc.append((lo, (hi - lo) or 1.0))
    for _ in range(n):
        form = ch.draw(4)
        i, j = rs.randint(d.dim), rs.randint(d.dim)
        a, b = round(float(rs.uniform(-1, 1)), 3), round(float(rs.uniform(-1, 1)), 3)
        li, si = sc[i]
        lj, sj = sc[j]
        if form == 0:
            e = "({a}*(x[:,{i}]-({li}))/{si} + {b}*(x[:,{j}]-({lj}))/{sj})"
        elif form == 1:
            e = "(((x[:,{i}]-({li}))/{si} - {a})**2)"
        elif form == 2:
            e = "abs((x[:,{i}]-({li}))/{si} - ({b})) "
        else:
            e = "(np.sqrt(((x[:,{i}]-({li}))/{si})**2) + ((x[:,{j}]-({lj}))/{sj})*{a})"
        e = e.format(a=a, b=b, i=i, j=j, li=li, lj=lj, si=si, sj=sj)
        g = eval("lambda x: " + e, {"np": np})
        v = np.sort(g(S))
        t = float(v[int(len(v) * rs.uniform(0.35, 0.75))])
        t = float("%.6g" % t)
        s = e + " - (%r)" % t
        cand = (s, eval("lambda x: " + s, {"np": np}))
        d.cons.append(cand)
        if d.feasible(S).mean() < min_frac:
            d.cons.pop()
    if not d.cons:
        v0 = d.vars[0]
        mid = (float(min(v0.dom)) + float(max(v0.dom))) / 2
        s = "x[:,0] - (%r)" % mid
        d.cons.append((s, eval("lambda x: " + s)))
    d.cons_style = ch.weighted([(6, None), (2, "same"), (1, "unnamed"), (1, "old")])
    ctx.config["constraints"] = len(d.cons)


# ------------------------------------------------------------------------------------------------ objectives
class Objective:
    """deterministic objective with a log of every call, durations on the simulated clock, and a fault plan"""
    def __init__(self, ctx, dom, seed=None, duration=None, shape=None):
        ch = ctx.ch
        self.ctx, self.dom = ctx, dom
        rs = np.random.RandomState(ch.draw(1 << 20) if seed is None else seed)
        sc = dom.scale() if dom.arms is not None else [(float(min(v.dom)), float(max(v.dom))) for v in dom.vars]
        self.lo = np.array([s[0] for s in sc])
        self.wd = np.array([(s[1] - s[0]) or 1.0 for s in sc])
        self.opt = rs.rand(len(sc))
        self.amp = rs.uniform(0.1, 2.0, size=len(sc))
        self.off = float(rs.uniform(-2, 2))
        self.calls = []               # (x bytes-exact copy, value or None)
        self.plan = {}                # call number -> fault
        self.duration = duration      # callable(call number) -> seconds
        self.shape = shape or "(1,1)"
        self.buf = np.zeros((1, 1))
        self.cache = {}               # results handed out more than once ("cached")
        self.handed = []              # (array handed out, its value)
        self.hook = None
        self.t_end = []               # wall clock at the end of each call

    def value(self, row):
        z = (np.asarray(row, float) - self.lo) / self.wd
        return float(self.off + np.sum(self.amp * (z - self.opt) ** 2) + 0.3 * math.sin(5.0 * float(np.sum(z))))

    def __call__(self, x):
        k = len(self.calls)
        f = self.plan.get(k)
        x = np.asarray(x)
        if not (x.ndim == 2 and x.shape == (1, self.dom.dim)):
            self.ctx.bad("objective-argument", "the objective was called with shape %s, expected (1, %d)" % (x.shape, self.dom.dim))
        row = np.array(x, float).reshape(-1).copy()
        self.calls.append([row, None])
        self.ctx.ev("f", row)
        if self.hook is not None:
            self.hook(k, row)
        if self.duration is not None:
            self.ctx.clock.advance(self.duration(k))
        if f in ("raise", "interrupt", "linalg", "memory", "keyerror"):
            self.ctx.fault("objective:" + f)
            self.t_end.append(None)
            raise {"raise": InjectedError, "interrupt": SimInterrupt, "linalg": InjectedLinAlg, "memory": InjectedMemory,
                   "keyerror": InjectedKey}[f]("objective call %d" % k)
        self.t_end.append(self.ctx.clock.wall)
        y = self.value(row)
        if f == "nan":
            self.ctx.fault("objective:nan")
            y = float("nan")
        elif f == "inf":
            self.ctx.fault("objective:inf")
            y = float("inf")
        elif f == "huge":
            self.ctx.fault("objective:huge")
            y = 1e12
        self.calls[k][1] = y
        if f == "mutate":
            self.ctx.fault("objective:mutates-argument")
            x[...] = -77.0
        if self.shape == "scalar":
            return y
        if self.shape == "(1,)":
            return np.array([y])
        if self.shape == "buffer":
            self.buf[0, 0] = y
            return self.buf
        if self.shape == "cached" and f is None:
            r = self.cache.setdefault(row.tobytes(), np.array([[y]]))
            self.calls[k][1] = float(r[0, 0])
        else:
            r = np.array([[y]])
        self.handed.append((r, y))
        return r

    def intact(self):
        """the arrays the objective returned (its own) still hold what it returned"""
        for r, y in self.handed:
            require(float(r[0, 0]) == y or y != y, "objective-result-changed", "an array returned by the objective held %r and was changed to %r" % (y, float(r[0, 0])))


class InjectedLinAlg(InjectedError, np.linalg.LinAlgError):
    pass


class InjectedMemory(InjectedError, MemoryError):
    pass


class InjectedKey(InjectedError, KeyError):
    pass


# ------------------------------------------------------------------------------------------------ surrogates
class _Inner:
    """what code reaching below BOModel sees (like the GPy model of GPModel)"""
    def __init__(self, owner):
        self.o = owner

    @property
    def X(self):
        return self.o.Xt

    @property
    def Y(self):
        return self.o.Yt

    @property
    def input_dim(self):
        return self.o.Xt.shape[1]

    def predict(self, X, **k):
        m, s = self.o._moments(np.atleast_2d(X))
        return m, s ** 2

    def plot_density(self, *a, **k):
        pass

    def predictive_gradients(self, X):
        m, s, dm, ds = self.o._grads(np.atleast_2d(X))
        return dm[:, :, None], 2 * s * ds


class TinyGP(BOModel):
    """A small, fast, deterministic Gaussian process with fixed hyper-parameters. It is determined by its data and
    records everything it is given. Faults: see arm()."""
    analytical_gradient_prediction = True
    MCMC_sampler = False

    def __init__(self, ctx, scale, ls=0.35, noise=1e-4, gradients=True):
        self.ctx = ctx
        self.lo = np.array([s[0] for s in scale])
        self.wd = np.array([(s[1] - s[0]) or 1.0 for s in scale])
        self.ls, self.noise = ls, noise
        self.model = None
        self.Xt = self.Yt = None
        self.fits = []                 # (X, Y) copies
        self.record = True
        self.analytical_gradient_prediction = gradients
        self.fault = {}
        self.n = dict(update=0, predict=0, grad=0, fmin=0)
        self.shape_faults = None       # ('nan'|'flat'|'saturated'|'halfnan', ...)
        self.on_query = None
        self.tag = None

    # -- faults
    def arm(self, **f):
        """update=k / predict=k / grad=k / fmin=k: the k-th call from now raises `exc`; shape=...: misbehaving predictions"""
        self.fault = dict(f)
        self.n = dict(update=0, predict=0, grad=0, fmin=0)

    def disarm(self):
        self.fault = {}

    def _tick(self, what):
        k = self.n[what]
        self.n[what] = k + 1
        if self.on_query is not None:
            self.on_query(what)
        if self.fault.get(what) == k:
            exc = self.fault.get("exc", "raise")
            self.ctx.fault("surrogate:%s-in-%s" % (exc, what))
            raise {"raise": InjectedError, "interrupt": SimInterrupt, "linalg": InjectedLinAlg, "memory": InjectedMemory}[exc](what)

    # -- BOModel
    def updateModel(self, X_all, Y_all, X_new, Y_new):
        self._tick("update")
        if self.record:
            self.fits.append((np.array(X_all, float), np.array(Y_all, float)))
        X, Y = np.array(X_all, float), np.array(Y_all, float)
        self._fit(X, Y)
        self._tick2()

    def _tick2(self):
        pass

    def _fit(self, X, Y):
        Z = (X - self.lo) / self.wd / self.ls
        K = np.exp(-0.5 * ((Z[:, None, :] - Z[None, :, :]) ** 2).sum(-1))
        Yf = np.where(np.isfinite(Y), Y, 0.0)
        self.mu = float(np.mean(Yf))
        self.sd = float(np.std(Yf)) or 1.0
        A = K + (self.noise + 1e-6) * np.eye(len(X))
        self.Ki = np.linalg.inv(A)
        self.al = self.Ki.dot((Yf - self.mu) / self.sd)
        self.Z, self.Xt, self.Yt = Z, X, Y
        self.model = _Inner(self)

    def _moments(self, X):
        z = (X - self.lo) / self.wd / self.ls
        d2 = ((z ** 2).sum(1)[:, None] + (self.Z ** 2).sum(1)[None, :] - 2 * z.dot(self.Z.T))
        k = np.exp(-0.5 * np.maximum(d2, 0))
        m = k.dot(self.al) * self.sd + self.mu
        v = 1.0 + self.noise - np.einsum("ij,jk,ik->i", k, self.Ki, k)
        s = np.sqrt(np.clip(v, 1e-10, None))[:, None] * self.sd
        return self._shape(X, m, s)

    def _shape(self, X, m, s):
        sh = self.fault.get("shape")
        if sh is None:
            return m, s
        self.ctx.faults["surrogate:" + sh] += 1
        self.ctx.nontrivial = True
        if sh == "flat":
            return np.zeros_like(m), np.full_like(s, 1e-12)
        if sh == "saturated":
            return m * 0 + 1e6, np.full_like(s, 1e-10)
        if sh == "nan":
            return m * np.nan, s
        if sh == "inf":
            return m * 0 + np.inf, s
        if sh == "halfnan":
            bad = ((X - self.lo) / self.wd).sum(1) > 0.5 * X.shape[1]
            m, s = m.copy(), s.copy()
            m[bad] = np.nan
            return m, s
        if sh == "zerostd":
            return m, s * 0
        raise HarnessError(sh)

    def _grads(self, X):
        m, s = self._moments(X)
        z = (X - self.lo) / self.wd / self.ls
        diff = z[:, None, :] - self.Z[None, :, :]
        k = np.exp(-0.5 * (diff ** 2).sum(-1))
        dk = -diff * k[:, :, None] / self.ls / self.wd
        dm = np.einsum("ijd,jo->id", dk, self.al) * self.sd
        dv = -2 * np.einsum("ijd,jk,ik->id", dk, self.Ki, k)
        ds = dv * self.sd ** 2 / (2 * np.maximum(s, 1e-12))
        if self.fault.get("shape") in ("nan", "inf"):
            dm = dm * np.nan
        return m, s, dm, ds

    def predict(self, X, with_noise=True):
        self._tick("predict")
        return self._moments(np.atleast_2d(X))

    # what entropy search asks for
    def _k(self, X):
        z = (np.atleast_2d(X) - self.lo) / self.wd / self.ls
        return np.exp(-0.5 * ((z[:, None, :] - self.Z[None, :, :]) ** 2).sum(-1)), z

    def get_covariance_between_points(self, X1, X2):
        self._tick("predict")
        k1, z1 = self._k(X1)
        k2, z2 = self._k(X2)
        return (np.exp(-0.5 * ((z1[:, None, :] - z2[None, :, :]) ** 2).sum(-1)) - k1.dot(self.Ki).dot(k2.T)) * self.sd ** 2

    def predict_covariance(self, X, with_noise=True):
        C = self.get_covariance_between_points(X, X)
        return C + (self.noise * self.sd ** 2 * np.eye(len(C)) if with_noise else 0.0)

    def predict_withGradients(self, X):
        self._tick("grad")
        return self._grads(np.atleast_2d(X))

    def get_fmin(self):
        self._tick("fmin")
        return float(self._moments(self.Xt)[0].min())

    def get_model_parameters(self):
        """a parameter vector that identifies the fit"""
        return np.array([[float(len(self.Xt)), self.mu, self.sd, float(np.sum(self.al))]])

    def get_model_parameters_names(self):
        return ["n", "mu", "sd", "sum"]


class TinyBare(TinyGP):
    """only what BOModel promises: the parameters are not exposed"""
    @property
    def get_model_parameters(self):
        raise AttributeError("get_model_parameters")
    get_model_parameters_names = get_model_parameters


class TinyES(TinyGP, GPyOpt.models.GPModel):
    """entropy search insists on a GPModel"""


class Slope(TinyGP):
    """mean linear in the (scaled) inputs, constant deviation: the acquisition's optimum is a known corner"""
    def __init__(self, ctx, scale, coef):
        TinyGP.__init__(self, ctx, scale)
        self.coef = np.asarray(coef, float)

    def _moments(self, X):
        m = ((X - self.lo) / self.wd).dot(self.coef)[:, None]
        return self._shape(X, m, np.full((len(X), 1), 0.5))

    def _grads(self, X):
        m, s = self._moments(X)
        return m, s, np.tile(self.coef / self.wd, (len(X), 1)), np.zeros((len(X), len(self.wd)))


# ------------------------------------------------------------------------------------------------ optimizers
class Spec(dict):
    __getattr__ = dict.get


def build(ctx, dom, obj, sp, X=None, Y=None, model=None):
    """an optimizer of GPyOpt for the specification sp"""
    kw = dict(sp.get("kwargs") or {})
    model_type = sp.model or "tiny"
    if sp.api == "mod":
        space = GPyOpt.Design_space(dom.decls(), dom.constraints())
        if obj is None:
            objective = None
        else:
            f = obj if not sp.maximize else (lambda x: -obj(x))
            objective = sp.objective_instance or GPyOpt.core.task.SingleObjective(f, sp.cores or 1)
        if model is None:
            model = make_model(ctx, dom, sp, space)
        optimizer = GPyOpt.optimization.AcquisitionOptimizer(space, sp.optimizer or "lbfgs", model=model, **kw)
        cost = sp.cost
        costm = GPyOpt.core.task.cost.CostModel(cost)
        acq = make_acq(sp.acq or "EI", model, space, optimizer, costm.cost_withGradients if cost is not None else None)
        ev = make_evaluator(sp, acq, model, space, optimizer)
        if X is None:
            X = GPyOpt.experiment_design.initial_design(sp.design or "random", space, sp.n_init or 3)
        if Y is None and objective is not None and not sp.lazy:
            Y, _ = objective.evaluate(X)      # a modular optimizer without outputs evaluates them in its first run only
        bo = GPyOpt.methods.ModularBayesianOptimization(model, space, objective, ev.acquisition, ev, X, Y_init=Y, cost=costm,
                                                        normalize_Y=sp.normalize is not False, model_update_interval=sp.interval or 1,
                                                        de_duplication=bool(sp.dedup))
        return bo
    args = dict(domain=dom.decls(), constraints=dom.constraints(), cost_withGradients=sp.cost, X=X, Y=Y,
                initial_design_numdata=sp.n_init or 3, initial_design_type=sp.design or "random", acquisition_type=sp.acq or "EI",
                normalize_Y=sp.normalize is not False, exact_feval=bool(sp.exact), acquisition_optimizer_type=sp.optimizer or "lbfgs",
                model_update_interval=sp.interval or 1, evaluator_type=sp.evaluator or "sequential", batch_size=sp.batch or 1,
                num_cores=sp.cores or 1, maximize=bool(sp.maximize), de_duplication=bool(sp.dedup))
    if model is not None:
        kw["model"] = model
    elif model_type == "tiny":
        kw["model"] = make_model(ctx, dom, sp)
    else:
        args["model_type"] = model_type
        kw.setdefault("max_iters", 2)
        kw.setdefault("optimize_restarts", 1)
        kw.setdefault("n_samples", 2)
        kw.setdefault("n_burnin", 2)
        kw.setdefault("subsample_interval", 1)
        kw.setdefault("leapfrog_steps", 2)
    args.update(kw)
    return GPyOpt.methods.BayesianOptimization(obj, **args)


def make_model(ctx, dom, sp, space=None):
    t = sp.model or "tiny"
    if t == "tiny":
        return (TinyES if sp.acq == "ES" else TinyBare if sp.bare else TinyGP)(ctx, dom.scale(), gradients=not sp.nograd)
    if t == "GP":
        return GPyOpt.models.GPModel(exact_feval=bool(sp.exact), optimize_restarts=1, max_iters=sp.get("max_iters", 2), verbose=False)
    if t == "sparseGP":
        return GPyOpt.models.GPModel(exact_feval=bool(sp.exact), optimize_restarts=1, max_iters=2, verbose=False, sparse=True, num_inducing=3)
    if t == "GP_MCMC":
        return GPyOpt.models.GPModel_MCMC(exact_feval=bool(sp.exact), n_samples=2, n_burnin=2, subsample_interval=1, leapfrog_steps=2, verbose=False)
    if t == "warpedGP":
        return GPyOpt.models.WarpedGPModel(max_iters=3)
    if t == "input_warped_GP":
        return GPyOpt.models.InputWarpedGPModel(space, max_iters=3, optimize_restarts=1)
    raise HarnessError(t)


def make_acq(name, model, space, optimizer, cost):
    A = GPyOpt.acquisitions
    if name == "ES":
        sampler = GPyOpt.util.mcmc_sampler.AffineInvariantEnsembleSampler(space)
        return A.AcquisitionEntropySearch(model, space, sampler, optimizer=optimizer, cost_withGradients=cost, num_samples=10, num_representer_points=8, burn_in_steps=5)
    return dict(EI=A.AcquisitionEI, MPI=A.AcquisitionMPI, LCB=A.AcquisitionLCB, EI_MCMC=A.AcquisitionEI_MCMC,
                MPI_MCMC=A.AcquisitionMPI_MCMC, LCB_MCMC=A.AcquisitionLCB_MCMC)[name](model, space, optimizer, cost)


def make_evaluator(sp, acq, model, space, optimizer):
    E = GPyOpt.core.evaluators
    e, b = sp.evaluator or "sequential", sp.batch or 1
    if e == "sequential" or (b == 1 and not sp.force_batch):
        return E.Sequential(acq)
    if e == "random":
        return E.RandomBatch(acq, b)
    if e == "thompson_sampling":
        return E.ThompsonBatch(acq, b)
    if e == "local_penalization":
        return E.LocalPenalization(GPyOpt.acquisitions.AcquisitionLP(model, space, optimizer, acq, sp.transform or "none"), b)
    raise HarnessError(e)


def gen_spec(ctx, dom, evaluators=("sequential", "random", "local_penalization", "thompson_sampling"), real=0.0, dedup=0.0,
             acqs=("EI", "LCB", "MPI"), optimizers=True, designs=True, max_batch=3, cost=False):
    """a specification that GPyOpt supports for this domain"""
    ch = ctx.ch
    sp = Spec()
    sp["acq"] = ch.pick(list(acqs))
    sp["evaluator"] = ch.pick(list(evaluators))
    sp["batch"] = 1 if sp.evaluator == "sequential" else ch.between(2, max_batch)
    sp["normalize"] = not ch.chance(0.3)
    sp["interval"] = ch.pick([1, 1, 2, 3])
    sp["dedup"] = ch.chance(dedup)
    sp["maximize"] = ch.chance(0.25)
    sp["nograd"] = ch.chance(0.15)
    sp["n_init"] = ch.between(2, 5)
    sp["optimizer"] = "lbfgs"
    if optimizers and dom.model_dim >= 2 and all(a < b for a, b in dom.scale()) and ch.chance(0.08) and sp.evaluator in ("sequential", "random"):
        sp["optimizer"] = "CMA"
    sp["design"] = "random"
    if designs and not dom.cons and dom.arms is None and dom.ncont > 0:
        sp["design"] = ch.pick(["random", "latin", "sobol", "grid"])
    if dom.arms is not None:
        sp["design"] = "random"
    sp["model"] = "tiny"
    sp["api"] = ch.pick(["bo", "mod"])
    if ch.chance(real):
        sp["model"] = ch.pick(["GP", "GP_MCMC", "sparseGP"]) if dom.arms is None else "GP"
        if sp["model"] == "GP_MCMC":
            sp["acq"] += "_MCMC"
            sp["evaluator"], sp["batch"] = "sequential", 1
        sp["exact"] = ch.chance(0.3)
    if sp["evaluator"] in ("local_penalization", "thompson_sampling"):
        sp["nograd"] = False        # these policies always ask for gradients
    if sp["evaluator"] == "local_penalization":
        if sp.model == "tiny":
            sp["api"] = "mod"
    ctx.config.update(acq=sp.acq, evaluator=sp.evaluator, batch=sp.batch, model=sp.model, api=sp.api, optimizer=sp.optimizer, design=sp.design, dedup=sp.dedup)
    return sp


# ------------------------------------------------------------------------------------------------ calls
def api(ctx, what, fn, allow=()):
    """one call of the code under test: ('ok', value) or ('err', exception) for exceptions in `allow` / injected ones"""
    ctx.ev("call", what)
    try:
        v = fn()
    except BaseException as e:
        if isinstance(e, (Violation, HarnessError)) or (isinstance(e, INJECTED) is False and not (allow and isinstance(e, allow))):
            if isinstance(e, (Violation, HarnessError)):
                raise
            import traceback
            tb = traceback.format_list(traceback.extract_tb(e.__traceback__)[-6:])
            raise Violation("exception:%s" % type(e).__name__, "%s failed with %s: %s\n%s" % (what, type(e).__name__, str(e)[:600], "".join(tb)))
        ctx.ev("raised", what, type(e).__name__)
        return "err", e
    ctx.ev("ok", what)
    return "ok", v


def same(a, b):
    return (a is None and b is None) or (a is not None and b is not None and np.shape(a) == np.shape(b) and
                                         np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True))


def record_ok(ctx, bo, obj, sign, given, where, skip=()):
    """the recorded evaluations are exactly the completed calls of the objective, in order, after `given` rows"""
    X, Y = bo.X, bo.Y
    require(X is not None and Y is not None and X.ndim == 2 and Y.ndim == 2 and len(X) == len(Y), "misaligned",
            "%s: X %s and Y %s" % (where, np.shape(X), np.shape(Y)))
