"""A program that uses GPyOpt: plan (data only) -> session -> trace. Sessions draw no choices while they run."""
import random as _random

from .world import *
from .campaign import gen_context


def gen_plan(ctx, real=0.25, nops=4, cmas=True, contexts=0.2, min_dim=1, cheap=False, faults=0.0, dom=None, cons=0.2, kinds=("cont", "mixed", "finite", "bandit"), costs=0.0, prefer=None, **kw):
    """everything a program needs to know, drawn before it starts (prefer: a kind of surrogate, 'ES' or 'CMA' that must be used)"""
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    if prefer:
        kinds, cons = ("cont",), 0.0
    if dom is None:
        dom = gen_dom(ctx, kinds=kinds, max_dim=2 if cheap else 3)
        if dom.arms is None and ch.chance(cons):
            add_constraints(ctx, dom, n=1)
    if prefer == "CMA" and dom.model_dim < 2:
        dom.add("extra", "continuous", (0.0, 1.0))
    sp = gen_spec(ctx, dom, dedup=0.2, optimizers=cmas, **kw)
    if prefer == "CMA":
        sp["optimizer"], sp["evaluator"], sp["batch"] = "CMA", "sequential", 1
    elif prefer or ch.chance(real):
        kinds = ["GP", "GP", "GP_MCMC", "sparseGP"]
        plain = dom.arms is None and not dom.has_cat and not dom.cons and all(a < b for a, b in dom.scale())
        if plain:
            kinds += ["input_warped_GP", "ES"] + (["warpedGP"] if ctx.tier == "thorough" and dom.scale()[0][1] < 5 else [])
        if dom.arms is not None:
            kinds = ["GP"]
        t = prefer or ch.pick(kinds)
        sp["acq"] = sp.acq.replace("_MCMC", "")
        if t == "ES":
            sp["model"], sp["acq"], sp["api"], sp["evaluator"], sp["batch"], sp["optimizer"], sp["interval"] = "GP", "ES", "mod", "sequential", 1, "lbfgs", 1
        else:
            sp["model"] = t
            if t == "GP_MCMC":
                sp["acq"] += "_MCMC"
                sp["evaluator"], sp["batch"] = "sequential", 1
            if t in ("warpedGP", "input_warped_GP"):
                sp["api"] = "mod"
                if sp.evaluator in ("local_penalization", "thompson_sampling") or t == "warpedGP":
                    sp["evaluator"], sp["batch"] = "sequential", 1
                sp["optimizer"] = "lbfgs"
    slow = sp.model in ("GP_MCMC", "warpedGP", "input_warped_GP") or sp.acq == "ES"
    ctx.config.update(acq=sp.acq, evaluator=sp.evaluator, batch=sp.batch, model=sp.model, api=sp.api, optimizer=sp.optimizer, design=sp.design, dedup=sp.dedup)
    if not slow and sp.acq in ("EI", "MPI") and sp.evaluator != "local_penalization" and ch.chance(costs):
        sp["cost"] = "evaluation_time"
        ctx.config["cost"] = "evaluation_time"
    ops, fails = [], {}
    for k in range(1 if slow else ch.between(1, nops)):
        if faults and ch.chance(faults):
            fails[k + 1] = ch.between(0, 2)
        cx = gen_context(ctx, dom, rs, min_free=2 if sp.optimizer == "CMA" else 1) if ch.chance(contexts) and sp.acq != "ES" else None
        if ch.chance(0.5) or slow:
            ops.append(("run", ch.between(1, 1 if slow else 2), cx))
        else:
            pend = dom.draw(rs, 2) if (sp.dedup and ch.chance(0.5)) else None
            ops.append(("suggest", pend, cx))
    return dict(dom=dom, sp=sp, ops=ops, fails=fails, obj=ch.draw(1 << 20), seed=ch.draw(1 << 30), X=dom.draw(rs, 3) if ch.chance(0.15) else None)


class Session:
    """op 0 builds the optimizer, the others are those of the plan"""
    def __init__(self, ctx, plan, dur=None, seed=True):
        self.ctx, self.plan = ctx, plan
        self.trace = []
        self.obj = Objective(ctx, plan["dom"], seed=plan["obj"])
        self.obj.duration = dur
        self.bo = None
        self.k = 0
        self.seed = seed

    @property
    def n(self):
        return 1 + len(self.plan["ops"])

    def step(self):
        k, self.k = self.k, self.k + 1
        p = self.plan
        n0 = len(self.obj.calls)
        if k == 0:
            if self.seed:
                np.random.seed(p["seed"] % (2 ** 32))
            X = None if p["X"] is None else p["X"].copy()
            self.bo = build(self.ctx, p["dom"], self.obj, Spec(p["sp"]), X=X)
            self.note("build", self.bo.X, self.bo.Y)
            return
        kind, arg, cx = p["ops"][k - 1]
        cx = dict(cx) if cx else cx
        if k in p["fails"]:
            self.obj.plan = {n0 + p["fails"][k]: "raise"}
        try:
            if kind == "run":
                self.bo.run_optimization(arg, eps=-1, context=cx)
                self.note("run", self.bo.X, self.bo.Y, np.array([c[0] for c in self.obj.calls[n0:]]), self.bo.x_opt, self.bo.fx_opt, self.bo.Y_best)
            else:
                v = self.bo.suggest_next_locations(context=cx, pending_X=None if arg is None else arg.copy())
                self.note("suggest", v)
        except FullyExploredOptimizationDomainError:
            self.note("explored", self.bo.X, self.bo.Y)
        except InjectedError:
            self.note("aborted", self.bo.X, self.bo.Y)
        self.obj.plan = {}

    def note(self, what, *arrays):
        self.trace.append((what,) + tuple(np.array(a, float) for a in arrays))

    def run(self):
        while self.k < self.n:
            self.step()
        return self.trace


def first_difference(A, B):
    """None if two traces are the same bit for bit"""
    for k, (a, b) in enumerate(zip(A, B)):
        if a[0] != b[0]:
            return "operation %d ends with %s / %s" % (k, a[0], b[0])
        for u, v in zip(a[1:], b[1:]):
            if u.shape != v.shape:
                return "operation %d (%s): shapes %s / %s" % (k, a[0], u.shape, v.shape)
            if not np.array_equal(u, v, equal_nan=True):
                d = np.argwhere(~((u == v) | (np.isnan(u) & np.isnan(v))))[0]
                return "operation %d (%s): entry %s is %r / %r" % (k, a[0], d.tolist(), u[tuple(d)], v[tuple(d)])
    if len(A) != len(B):
        return "%d / %d operations" % (len(A), len(B))
    return None


def digest(trace):
    import hashlib
    h = hashlib.sha256()
    for t in trace:
        h.update(t[0].encode())
        for a in t[1:]:
            h.update(repr(a.shape).encode() + a.tobytes())
    return h.hexdigest()
