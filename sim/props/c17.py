"""Configuration files drive the run they describe, repeatably."""
import copy
import errno
import json
import os

from ..campaign import *
from ..simos import SimOS
from .. import seams
ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 300, "thorough": 40000}
RULE = ("A run is a history over one to three random partial configurations (options left out at any nesting level) written to files on a simulated disk: parsing (healthy, short reads, "
        "failing open, failing n-th read, truncated, damaged or missing files), runs of BODriver under a simulated clock with an objective that takes simulated time, runs aborted by the "
        "objective, runs nested in the objective of another run, changes to parsed options, and repeated runs. The judge merges options with its own copy of the documented defaults, builds "
        "the described optimizer itself out of GPyOpt's components and compares all evaluations and all surrogate fits with the driver's; configurations and defaults must never change.")
REAL = ["GPyOpt (config_parser, driver, func_loader, ModularBayesianOptimization, GPModel, evaluators, designs)", "json", "GPy regression (hyper-parameter optimisation skipped, its arguments recorded)", "scipy L-BFGS-B"]
STUB = ["objective (in one operation of ten a file loaded by load_objective)", "clock", "disk below Python's buffers", "OS entropy", "worker processes (in the runs with several cores)"]
ASSUMPTIONS = ["configurations use the documented layout (every variable with its dimensionality, its domain a literal in a string)",
               "batch penalisation, entropy search, DIRECT and surrogates other than the GP cannot be built from a configuration and are not used"]

# the documented defaults, written down again
DEFAULTS = {
    "language": "PYTHON", "experiment-name": "no-named-experiment", "likelihood": "NOISELESS",
    "initialization": {"type": "random", "num-eval": 5},
    "model": {"type": "GP", "num_inducing": 10},
    "constraints": [],
    "resources": {"maximum-iterations": 20, "max-run-time": "NA", "cores": 1, "tolerance": 1e-8},
    "acquisition": {"type": "EI", "jitter": 0.01, "optimizer": {"name": "lbfgs"}, "evaluator": {"type": "sequential"}},
    "output": {"verbosity": False, "file-report": {"type": "report", "filename": None, "interval": -1},
               "Ybest": {"type": "logger", "content": "ybest", "format": "csv", "filename": None, "interval": 1}},
}


def merged(base, new):
    out = copy.deepcopy(base)
    for k, v in new.items():
        out[k] = merged(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else copy.deepcopy(v)
    return out


def exact(a, b):
    """equal, types included"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    return a == b


class Fits:
    """the regression library below GPModel, without hyper-parameter optimisation"""
    def __init__(self):
        import GPy
        self.log = []
        for R in (GPy.models.GPRegression, GPy.models.SparseGPRegression):
            self.patch(R)

    def patch(self, R):
        init, set_XY = R.__init__, R.set_XY

        def __init__(m, X, Y, *a, **k):
            init(m, X, Y, *a, **k)
            self.log.append(("create", type(m).__name__, k.get("noise_var") is not None, k.get("num_inducing"), type(m.kern).__name__, len(m.kern.param_array), np.array(X, float).tobytes(), np.array(Y, float).tobytes()))

        def setxy(m, X=None, Y=None):
            set_XY(m, X, Y)
            self.log.append(("set", np.array(X, float).tobytes(), np.array(Y, float).tobytes(), m.likelihood.variance.values.tobytes()))
        R.__init__, R.set_XY = __init__, setxy

        def optimize(m, *a, **k):
            self.log.append(("optimize", k.get("optimizer"), k.get("max_iters")))

        def optimize_restarts(m, *a, **k):
            self.log.append(("optimize_restarts", k.get("num_restarts"), k.get("optimizer"), k.get("max_iters")))
        R.optimize, R.optimize_restarts = optimize, optimize_restarts


def gen_config(ctx, rs, single):
    """(partial configuration, Dom)"""
    ch = ctx.ch
    dom = gen_dom(ctx, kinds=("cont", "mixed", "finite"))
    cfg = {}
    cfg["space"] = []
    for d in dom.decl:
        n = d.get("dimensionality", 1)
        cfg["space"].append({"name": d["name"], "type": d["type"], "domain": ch.pick([str(tuple(d["domain"])), str(list(d["domain"]))]) if d["type"] != "continuous" else str(tuple(d["domain"])),
                             "dimensionality": ch.pick([str(n), n])})
    if ch.chance(0.25):
        add_constraints(ctx, dom)
        cfg["constraints"] = dom.constraints()
    elif ch.chance(0.3):
        cfg["constraints"] = []
    ini = {}
    if ch.chance(0.6):
        ini["num-eval"] = ch.between(2, 4)
    if ch.chance(0.6):
        ini["type"] = ch.pick(["random", "latin", "sobol", "grid"]) if dom.ncont and not dom.cons else "random"
    if ini or ch.chance(0.2):
        cfg["initialization"] = ini
    mod = {}
    for k, vals, p in (("exact_feval", [True, False], 0.3), ("ARD", [True], 0.2), ("sparse", [True], 0.15), ("num_inducing", [3, 5], 0.3), ("noise_var", [0.1], 0.2),
                       ("max_iters", [0, 50], 0.3), ("optimize_restarts", [1, 3], 0.3), ("verbose", [False], 0.3), ("type", ["GP"], 0.3), ("optimizer", ["lbfgs", "scg"], 0.2)):
        if ch.chance(p):
            mod[k] = ch.pick(vals)
    if mod or ch.chance(0.2):
        cfg["model"] = mod
    acq = {}
    if ch.chance(0.6):
        acq["type"] = ch.pick(["EI", "MPI", "LCB"])
    if ch.chance(0.3):
        acq["jitter"] = ch.pick([0.5, 0.0])
    if ch.chance(0.2):
        acq["exploration_weight"] = ch.pick([0.5, 10])
    if ch.chance(0.3):
        acq["optimizer"] = ch.pick([{"name": "lbfgs"}, {}])
    batch = 1
    if ch.chance(0.5):
        e = ch.pick(["sequential", "random", "thompson_sampling", None])
        acq["evaluator"] = {} if e is None else {"type": e}
        if e in ("random", "thompson_sampling"):
            batch = acq["evaluator"]["batch_size"] = ch.between(2, 5)
    if acq or ch.chance(0.2):
        cfg["acquisition"] = acq
    res = {}
    long = ch.chance(0.06)           # the default of 20 iterations
    if not long:
        res["maximum-iterations"] = ch.weighted([(6, ch.between(1, 3)), (1, 0), (3, "NA")])
        if res["maximum-iterations"] == "NA" or ch.chance(0.3):
            res["max-run-time"] = ch.pick([1, 0.5, 2])
    elif ch.chance(0.5):
        res["max-run-time"] = ch.pick([2, "NA"])
    if res.get("maximum-iterations") == "NA" and dom.finite:
        pass
    if ch.chance(0.3):
        res["tolerance"] = ch.pick([1e-8, 0, 0.3, -1])
    elif res.get("maximum-iterations") == "NA" and ch.chance(0.3):
        pass
    cores = 1
    if single and ch.chance(0.5):
        cores = res["cores"] = ch.pick([1, 2, 3])
    if res or ch.chance(0.2):
        cfg["resources"] = res
    for k, vals in (("language", ["PYTHON"]), ("experiment-name", ["e"]), ("likelihood", ["gaussian"]), ("main-file", ["f.py"]), ("output", [{"verbosity": True}, {"Ybest": {"interval": 3}}, {"file-report": {}, "more": {"type": "logger"}}])):
        if ch.chance(0.3):
            cfg[k] = ch.pick(vals)
    items = list(cfg.items())
    cfg = dict([items[i] for i in ch.perm(len(items))])
    return cfg, dom


class Case:
    def __init__(self, ctx, rs, single, k):
        ch = ctx.ch
        self.ctx = ctx
        self.cfg, self.dom = gen_config(ctx, rs, single)
        self.want = merged(DEFAULTS, self.cfg)
        self.path = os.path.join(ctx.scratch, "config%d.json" % k)
        self.text = json.dumps(self.cfg, indent=ch.pick([None, 2])).encode()
        with seams.REAL["open"](self.path, "wb") as f:
            f.write(self.text)
        self.f = Objective(ctx, self.dom, seed=ch.draw(1 << 20))
        self.seed = ch.draw(1 << 30)
        self.durs = [ch.pick([10.0, 1.0, 25.0, 40.0, 0.0 if self.want["resources"]["maximum-iterations"] != "NA" else 20.0]) for _ in range(3)]
        self.nested = None           # function called once during an evaluation
        self.outcome = None          # X, Y, fits of a complete run
        self.args = [(n, v) for n, v in self.shape()]
        self.procs = set()
        self.os = None

    def shape(self):
        for d in self.dom.decl:
            yield d["name"], d.get("dimensionality", 1)

    def objective(self):
        """a fresh objective taking one argument per variable of the configuration"""
        g = Objective.__new__(Objective)
        g.__dict__.update(self.f.__dict__)
        g.calls, g.t_end, g.plan = [], [], {}
        if self.os is None:
            g.duration = lambda k: self.durs[k % 3]
        else:
            g.duration = None
            g.hook = lambda k, row: self.os.busy(self.durs[int(abs(float(np.sum(row)) * 1000)) % 3])

        def f(*args):
            widths = [np.shape(a) for a in args]
            if widths != [(1, n) for _, n in self.args]:
                self.ctx.bad("objective-argument", "the objective got arguments of shapes %s for the variables %s" % (widths, self.args))
            if self.nested is not None and g.calls:
                n, self.nested = self.nested, None
                n()
            return g(np.hstack(args))
        return g, f


def twin(case, fits):
    """the optimizer the configuration describes, built out of the components"""
    c = case.want
    space = GPyOpt.Design_space(case.dom.decls() if all("dimensionality" in d for d in case.dom.decl) else [dict(d, dimensionality=d.get("dimensionality", 1)) for d in case.dom.decls()],
                                None if not c["constraints"] else copy.deepcopy(c["constraints"]))
    g, f = case.objective()
    cut, k = [], 0
    for _, n in case.args:
        cut.append((k, k + n))
        k += n
    objective = GPyOpt.core.task.SingleObjective(lambda x: f(*[x[:, a:b] for a, b in cut]), c["resources"]["cores"])
    m = {k: v for k, v in c["model"].items() if k != "type"}
    model = GPyOpt.models.GPModel(**m)
    opt = GPyOpt.optimization.AcquisitionOptimizer(space, c["acquisition"]["optimizer"]["name"])
    a = c["acquisition"]
    if a["type"] == "LCB":
        acq = GPyOpt.acquisitions.AcquisitionLCB(model, space, opt, None, exploration_weight=a.get("exploration_weight", 2))
    else:
        acq = {"EI": GPyOpt.acquisitions.AcquisitionEI, "MPI": GPyOpt.acquisitions.AcquisitionMPI}[a["type"]](model, space, opt, None, jitter=a["jitter"])
    E = GPyOpt.core.evaluators
    e = a["evaluator"]
    ev = E.Sequential(acq) if e["type"] == "sequential" else {"random": E.RandomBatch, "thompson_sampling": E.ThompsonBatch}[e["type"]](acq, e["batch_size"])
    X0 = GPyOpt.experiment_design.initial_design(c["initialization"]["type"], space, c["initialization"]["num-eval"])
    bo = GPyOpt.methods.ModularBayesianOptimization(model, space, objective, acq, ev, X0)
    r = c["resources"]
    bo.run_optimization(max_iter=None if r["maximum-iterations"] == "NA" else r["maximum-iterations"],
                        max_time=np.inf if r["max-run-time"] == "NA" else 60.0 * r["max-run-time"], eps=r["tolerance"])
    return bo, g


def run(ctx):
    from GPyOpt.interface import config_parser, driver, func_loader
    ch = ctx.ch
    rs = np.random.RandomState(ch.draw(1 << 20))
    fits = Fits()
    fs = seams.SimFS(ctx, ctx.scratch)
    seams.W.fs = fs
    single = ch.chance(0.12)
    cases = [Case(ctx, rs, single, k) for k in range(1 if single else ch.between(1, 3))]
    if single:
        seams.W.os = SimOS(ctx, ctx.clock, capacity=65536)
        for c in cases:
            c.os = seams.W.os
    ctx.config.update(cases=len(cases), cores=cases[0].want["resources"]["cores"], evaluator=cases[0].want["acquisition"]["evaluator"]["type"], acq=cases[0].want["acquisition"]["type"],
                      limit=str(cases[0].want["resources"]["max-run-time"]), design=cases[0].want["initialization"]["type"])

    def defaults(where):
        require(exact(config_parser.default_config, DEFAULTS), "defaults-changed", lambda: "%s: the defaults are %s" % (where, config_parser.default_config))

    def parse(case):
        case.f.ctx = ctx
        r, v = api(ctx, "parse", lambda: config_parser.parser(case.path))
        require(exact(v, case.want), "merge", lambda: "the options of %s are %s, expected %s" % (case.cfg, v, case.want))
        defaults("after parsing")
        return v

    def start(case, options, plan=None):
        """one run of the driver; ('ok', bo, objective) or ('err', exception, objective)"""
        before = copy.deepcopy(options)
        g, f = case.objective()
        g.plan = plan or {}
        del fits.log[:]
        np.random.seed(case.seed)
        d = driver.BODriver(options, f)
        r, v = api(ctx, "drive", d.run)
        require(exact(options, before), "configuration-changed", lambda: "the run changed the configuration from %s to %s" % (before, options))
        defaults("after a run")
        return r, v, g, list(fits.log)

    def outcome(bo, g, log):
        return dict(X=np.array(bo.X, float), Y=np.array(bo.Y, float), calls=[c[0] for c in g.calls], fits=log)

    def compare(a, b, kind, where):
        if not (same(a["X"], b["X"]) and same(a["Y"], b["Y"])):
            raise Violation(kind, "%s: evaluations X=%s Y=%s, expected X=%s Y=%s" % (where, a["X"].tolist(), a["Y"].tolist(), b["X"].tolist(), b["Y"].tolist()))
        require(len(a["calls"]) == len(b["calls"]), kind, "%s: %d calls of the objective, expected %d" % (where, len(a["calls"]), len(b["calls"])))
        require(a["fits"] == b["fits"], kind, lambda: "%s: the surrogate was set up differently: %s, expected %s" % (
            where, [t[:6] if t[0] == "create" else t[0] if t[0] == "set" else t for t in a["fits"]][:12], [t[:6] if t[0] == "create" else t[0] if t[0] == "set" else t for t in b["fits"]][:12]))

    def judge(case, bo, g, log):
        case.dom.check(np.array(bo.X, float), "evaluated by the driver", constraints=case.want["initialization"]["type"] == "random")
        if case.want["initialization"]["type"] != "grid":
            b = case.want["acquisition"]["evaluator"].get("batch_size", 1)
            n0 = case.want["initialization"]["num-eval"]
            n = case.want["resources"]["maximum-iterations"]
            steps = (len(bo.X) - n0) / float(b)
            require(steps == int(steps) and steps >= 0 and (n == "NA" or steps <= n), "budget", "%d rows evaluated with an initial design of %s, batches of %d and %s iterations" % (len(bo.X), n0, b, n))
            if n != "NA" and case.want["resources"]["max-run-time"] == "NA" and case.want["resources"]["tolerance"] <= 0:
                require(steps == n or not case.want["resources"]["tolerance"] < 0, "budget", "%d of %s iterations were performed" % (steps, n))
        if case.outcome is not None:
            ctx.probe("repeated-run")
            compare(outcome(bo, g, log), case.outcome, "not-repeatable", "a repeated run")
            return
        o = outcome(bo, g, log)
        if case.os is not None:
            peak, case.os.peak_busy = case.os.peak_busy, 0
            if len(g.calls) or True:
                require(peak <= max(1, case.want["resources"]["cores"]), "cores", "%d evaluations at once with %d cores" % (peak, case.want["resources"]["cores"]))
                dur = min(case.durs)
                if dur > 0 and case.want["initialization"]["num-eval"] >= 2 and len(bo.X) >= 2:
                    want = min(case.want["resources"]["cores"], max(case.want["initialization"]["num-eval"] if case.want["initialization"]["type"] != "grid" else 1, case.want["acquisition"]["evaluator"].get("batch_size", 1) if len(bo.X) > case.want["initialization"]["num-eval"] else 1))
                    require(peak >= want, "cores", "at most %d evaluations at once, %d cores are configured" % (peak, case.want["resources"]["cores"]))
        del fits.log[:]
        np.random.seed(case.seed)
        tb, tg = twin(case, fits)
        t = outcome(tb, tg, list(fits.log))
        compare(o, t, "not-as-configured", "a run of %s" % json.dumps(case.cfg)[:600])
        sp = case.want["resources"]
        if len(tb.X) and sp["max-run-time"] != "NA":
            ctx.probe("time-limit")
        case.outcome = o
        if case.os is not None:
            case.os.peak_busy = 0

    parsed = {}
    for op in range(ch.between(2, 7)):
        case = ch.pick(cases)
        kind = ch.weighted([(5, "run"), (2, "parse"), (4, "damaged"), (3, "aborted"), (1, "none"), (2, "load"), (2, "edit"), (2, "rewritten"), (1 if len(cases) > 1 else 0, "nested")] if not single
                           else [(5, "run"), (2, "parse"), (2, "damaged")])
        if id(case) not in parsed or kind == "parse":
            parsed[id(case)] = parse(case)
        opts = parsed[id(case)]
        if kind == "run":
            r, bo, g, log = start(case, opts)
            require(r == "ok", "run-failed", "the driver failed: %r" % (bo,))
            judge(case, bo, g, log)
        elif kind == "aborted":
            r, v, g, log = start(case, opts, plan={ch.between(0, 8): ch.pick(["raise", "interrupt", "linalg"])})
            if r == "err":
                ctx.probe("aborted-run")
            else:
                judge(case, v, g, log)
        elif kind == "nested":
            other = ch.pick([c for c in cases if c is not case])
            if id(other) not in parsed:
                parsed[id(other)] = parse(other)

            def inner():
                st, now, outer = np.random.get_state(), (ctx.clock.wall, ctx.clock.mono), list(fits.log)
                ctx.probe("nested-run")
                r, bo, g, log = start(other, parsed[id(other)])
                judge(other, bo, g, log)
                np.random.set_state(st)
                ctx.clock.wall, ctx.clock.mono = now
                fits.log[:] = outer
            case.nested = inner
            r, bo, g, log = start(case, opts)
            case.nested = None
            judge(case, bo, g, log)
        elif kind == "edit":
            # whoever parsed a configuration may change his copy
            mine = parse(case)
            mine["resources"]["maximum-iterations"] = 99
            mine["acquisition"]["optimizer"]["name"] = "edited"
            mine["acquisition"]["evaluator"]["type"] = "edited"
            mine["model"]["type"] = mine["initialization"]["type"] = "edited"
            mine["constraints"].append({"name": "edited", "constraint": "edited"})
            mine["output"]["Ybest"]["filename"] = "edited"
            mine["space"].append("edited")
            defaults("after changing parsed options")
            require(exact(opts, case.want), "configuration-shared", "changing parsed options changed options parsed before")
            parse(case)
        elif kind == "rewritten":
            # the file is written again with another content
            other = ch.pick([c.cfg for c in cases if c is not case] + [{"resources": {"cores": ch.between(2, 9)}}, {"model": {"type": "GP"}, "space": []}, {}])
            with seams.REAL["open"](case.path, "wb") as fh:
                fh.write(json.dumps(other).encode())
            r, v = api(ctx, "parse", lambda: config_parser.parser(case.path))
            require(exact(v, merged(DEFAULTS, other)), "merge", lambda: "the options of the rewritten file %s are %s" % (other, v))
            with seams.REAL["open"](case.path, "wb") as fh:
                fh.write(case.text)
            parse(case)
        elif kind == "none":
            d = driver.BODriver(None, lambda *a: 0.0)
            require(exact(d.config, DEFAULTS), "defaults", lambda: "a driver without configuration has the options %s" % d.config)
            try:
                d.run()
                raise Violation("no-space", "a configuration without variables was run")
            except (AssertionError, KeyError):
                pass
            d.config["resources"]["cores"] = 77
            d.config["acquisition"]["evaluator"]["type"] = "edited"
            defaults("after changing the options of a driver")
        elif kind == "load":
            # a few names in a few folders, all with different contents: each project has its own objective
            place = ctx.ch.draw(3)
            folder = os.path.join(ctx.scratch, "prj%d" % place)
            os.makedirs(folder, exist_ok=True)
            name = ch.draw(4)
            k = 10 * name + place
            name = ("fun%d", "fun%d", "objective", "f")[name] % ((name,) if name < 2 else ())
            with seams.REAL["open"](os.path.join(folder, name + ".py"), "w") as fh:
                fh.write("K = %d\ndef %s(*a):\n    return K + sum(float(v.sum()) for v in a)\n" % (k, name))
            o2 = dict(copy.deepcopy(opts), **{"main-file": name + ".py", "prjpath": folder})
            keep = copy.deepcopy(o2)
            here = os.getcwd()
            fn = func_loader.load_objective(o2)
            os.chdir(here)
            require(exact(o2, keep), "configuration-changed", "loading the objective changed the configuration")
            require(fn(np.array([[1.0]]), np.array([[2.0, 3.0]])) == k + 6.0, "objective", "the objective of the configuration is not the one in its main file")
        elif kind == "damaged":
            how = ch.pick(["truncated", "truncated", "open", "read", "byte", "empty", "missing", "short", "not-an-object"])
            path, plan, ok = case.path, {}, False
            data = case.text
            if how == "truncated":
                data = data[:ch.draw(len(data))]
            elif how == "byte":
                data = data[:1] + b"\xff\xfe" + data[1:]
            elif how == "empty":
                data = b" \n" if ch.chance(0.5) else b""
            elif how == "not-an-object":
                data = ch.pick([b"[1, 2]", b"7", b"\"resources\"", b"null"])
            elif how == "open":
                plan["ropen"] = ch.pick([errno.EACCES, errno.EIO, errno.EMFILE])
            elif how == "read":
                plan["read"], plan["read_at"], plan["buf"] = errno.EIO, ch.between(0, 1), ch.pick([8192, 64, 16])
                plan["short"] = ch.pick([None, 3])
            elif how == "short":
                plan["short"], plan["buf"] = ch.pick([2, 5, 10]), ch.pick([8192, 64, 16])
                ctx.fault("disk:short-read")
                ok = True
            elif how == "missing":
                path = os.path.join(ctx.scratch, "missing.json")
            if data is not case.text:
                path = os.path.join(ctx.scratch, "damaged.json")
                with seams.REAL["open"](path, "wb") as fh:
                    fh.write(data)
                ctx.fault("config:" + how)
            fs.reads = 0
            fs.arm(plan)
            r, v = api(ctx, "parse " + how, lambda: config_parser.parser(path), () if ok else (Exception,))
            fired = fs.disarm()
            if ok or (how == "read" and not fired):
                require(r == "ok" and exact(v, case.want), "merge", lambda: "reading in pieces gave %s, expected %s" % (v, case.want))
            else:
                require(r == "err", "silent-failure", lambda: "a file that is %s (%s) was read as %s" % (how, data[-40:], v))
            defaults("after a damaged file")
            if r == "err" and ch.chance(0.5):
                parse(case)
