"""Declared constraints hold for every proposed location."""
from ..campaign import *
ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 330, "thorough": 40000}
RULE = ("A run draws a domain with one to three constraints (linear, quadratic, absolute value, with numpy) that leave at least 12% of it feasible, an "
        "optimizer, and a history of requests and runs with contexts and surrogates that are flat, saturated, non-finite or raise; every proposed, "
        "evaluated or designed location is put through an independent evaluation of every constraint.")
REAL = ["GPyOpt", "scipy L-BFGS-B, cma"]
STUB = ["surrogate: TinyGP behind BOModel (real GPy in about 6% of the runs)", "objective", "clock", "OS entropy"]
ASSUMPTIONS = ["a constraint value up to 1e-9 counts as satisfied", "feasible candidates exist: at least 12% of the domain, 4% of the slice of a context"]


def needle(ctx, dom, rs):
    """a random design of a domain with a very small feasible region"""
    ch = ctx.ch
    j = ch.pick([j for j, v in enumerate(dom.vars) if v.kind == "continuous"])
    lo, hi = (float(t) for t in dom.vars[j].dom)
    c = lo + (hi - lo) * ch.draw(101) / 100.0
    w = (hi - lo) * ch.pick([1e-3, 3e-3, 1e-2])
    d = Dom()
    d.decl, d.vars = dom.decl, dom.vars
    s = "abs(x[:,%d] - (%r)) - %r" % (j, c, w)
    d.cons = [(s, eval("lambda x: " + s))]
    space = GPyOpt.Design_space(d.decls(), d.constraints())
    n = ch.pick([1, 2, 4])
    r, D = api(ctx, "needle-design", lambda: GPyOpt.experiment_design.initial_design("random", space, n))
    d.check(np.asarray(D), "random design of a small feasible region")
    require(len(D) == n, "design-size", "a random design of %d points has %d" % (n, len(D)))
    ctx.probe("small-feasible-region")


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx, kinds=("cont", "mixed", "cont", "finite"))
    add_constraints(ctx, dom)
    sp = gen_spec(ctx, dom, real=0.06, dedup=0.25)
    obj = Objective(ctx, dom)
    space = GPyOpt.Design_space(dom.decls(), dom.constraints())
    n = ch.pick([1, 3, 20, 100])
    r, D = api(ctx, "design", lambda: GPyOpt.experiment_design.initial_design("random", space, n))
    dom.check(np.asarray(D), "random design")
    require(len(D) == n, "design-size", "a random design of %d points has %d" % (n, len(D)))
    I = space.indicator_constraints(dom.draw(rs, 50))
    if dom.ncont and ch.chance(0.25):
        needle(ctx, dom, rs)
    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp))

    def judge(X, where, cx):
        for row in X:
            dom.check_constraints(np.asarray(row, float), where)
    judge(np.array([c[0] for c in obj.calls]).reshape(-1, dom.dim), "evaluated in the initial design", None)
    judge(bo.X, "initial design", None)
    campaign(ctx, dom, sp, obj, bo, judge, rs, contexts=0.3)
