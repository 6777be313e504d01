"""Every proposed or evaluated location lies in the declared domain."""
from ..campaign import *
ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 560, "thorough": 40000}
RULE = ("A run draws a domain (continuous, discrete, categorical, mixed, repeated variables, bandits), a design, surrogate, acquisition, local "
        "optimizer and batch policy, and a history of requests and runs with contexts, pending points, surrogates that raise or predict nonsense, "
        "failing or interrupted objectives; every location handed out or passed to the objective is tested for membership by an independent judge.")
REAL = ["GPyOpt (all of core, evaluators, acquisitions, optimization, experiment_design)", "scipy L-BFGS-B, cma, pyDOE, sobol_seq", "GPy surrogates in about 8% of the runs"]
STUB = ["surrogate: TinyGP behind the BOModel interface in the other runs (fault injection)", "objective", "clock", "OS entropy"]


def run(ctx):
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    dom = gen_dom(ctx)
    if dom.arms is None and ch.chance(0.15):
        add_constraints(ctx, dom)
    sp = gen_spec(ctx, dom, real=0.08, dedup=0.25)
    if not dom.cons and dom.arms is None and sp.model != "GP_MCMC" and ch.chance(0.04):
        sp["kwargs"] = {"type_anchor_points_logic": "thompson_sampling"}
    if sp.api == "bo" and ch.chance(0.1):
        sp["cost"] = "evaluation_time"
        if sp.acq == "LCB":
            sp["cost"] = None
    obj = Objective(ctx, dom, shape=ch.pick(["(1,1)", "scalar", "(1,)", "buffer", "cached"]))
    model = None
    if sp.model == "tiny" and not sp.nograd and sp.acq != "ES" and ch.chance(0.15):
        # the acquisition pulls every coordinate (also several indicators of one category at once) to the same end
        s = ch.pick([-1.0, -1.0, 1.0])
        model = Slope(ctx, dom.scale(), [s * ch.pick([1.0, 1.0, 1.0, 0.0]) for _ in range(dom.model_dim)])
        ctx.probe("corner-surrogate")
    if sp.cost:
        obj.duration = lambda k: [0.5, 1.0, 0.0, 4.0][k % 4]

    # initial designs of every kind
    space = GPyOpt.Design_space(dom.decls(), dom.constraints())
    kinds = ["random"] + (["latin", "sobol", "grid"] if dom.ncont and not dom.cons else [])
    name = ch.pick(kinds)
    n = ch.pick([1, 2, 5, 17, 64])
    r, D = api(ctx, "design-" + name, lambda: GPyOpt.experiment_design.initial_design(name, space, n))
    dom.check(np.asarray(D), "%s design" % name)
    if name != "grid":
        require(len(D) == n, "design-size", "a %s design of %d points has %d" % (name, n, len(D)))

    r, bo = api(ctx, "build", lambda: build(ctx, dom, obj, sp, model=model))

    def judge(X, where, cx):
        if len(X):
            dom.check(np.asarray(X), where, constraints=False)
    judge(np.array([c[0] for c in obj.calls]).reshape(-1, dom.dim), "evaluated in the initial design", None)
    judge(bo.X, "initial design", None)
    campaign(ctx, dom, sp, obj, bo, judge, rs)
