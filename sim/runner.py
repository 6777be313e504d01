"""Runs one property: a fork per simulated run, confirmation, minimisation, replay files, evidence."""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import selectors
import shutil
import signal
import struct
import sys
import tempfile
import time as _t
import traceback

from . import seams
from .core import Choices, Ctx, HarnessError, SimInterrupt, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)   # evidence and replay files (elsewhere only for the tools)
REPO = os.environ.get("GPYOPT_REPO", "/repo")
NOW = _t.time                       # real clock (taken before the seams are installed)
CPU_LIMIT = 60.0                    # CPU seconds of one run before it counts as hanging
WALL_LIMIT = 240.0
np = None


def load():
    """install the seams, then import the code under test from /repo's working tree"""
    global np
    seams.install()
    sys.path.insert(0, REPO)
    import numpy
    np = numpy
    import GPyOpt
    if not os.path.abspath(GPyOpt.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError("GPyOpt comes from %s, not from %s" % (GPyOpt.__file__, REPO))
    import GPyOpt.interface, GPyOpt.models, GPyOpt.plotting, GPyOpt.util.mcmc_sampler, GPyOpt.interface.output, GPyOpt.interface.func_loader, GPyOpt.interface.config_parser    # noqa: everything a run may need, before forking
    import emcee, cma, scipy.optimize, pyDOE, sobol_seq    # noqa
    real_fmin = cma.fmin

    def fmin(f, x0, sigma0, options=None, *a, **k):
        # a budget for CMA (its default lets one proposal take a minute)
        if seams.W.active:
            options = dict(options or {})
            options.setdefault("maxfevals", 120)
        return real_fmin(f, x0, sigma0, options, *a, **k)
    cma.fmin = fmin
    return importlib.import_module


def seed_of(seed, prop, i):
    return "%s/%s/%d" % (seed, prop, i)


class Result(dict):
    __getattr__ = dict.get


# ---------------------------------------------------------------------------------------------- one run, in a child
def run_here(mod, index, seed, tier, choices, out_fd, quiet=True, scratch=None):
    """executes one run and writes its result; never returns"""
    def emit(res):
        data = pickle.dumps(dict(res), protocol=4)
        data = struct.pack("!q", len(data)) + data
        while data:
            n = os.write(out_fd, data)
            data = data[n:]
    ch = Choices(seed=seed) if choices is None else Choices(replay=choices)
    ctx = Ctx(ch, tier)
    ctx.index = index
    ctx.scratch = scratch
    res = Result(index=index, status="ok")

    def finish():
        res.update(choices=ch.rec, digest=ctx.digest.hexdigest(), faults=dict(ctx.faults), probes=dict(ctx.probes),
                   sig=ctx.signature(), simtime=ctx.simtime, nontrivial=ctx.nontrivial, config=dict(ctx.config),
                   nev=len(ctx.sig), log=ctx.log[-400:] if res["status"] != "ok" or not quiet else ctx.log[:30])
        emit(res)
        os._exit(0)

    def hang(signum, frame):
        seams.W.active = False
        res.update(status="violation", kind="hang", msg="the run used more than %d s of CPU time (or %d s) without finishing; it was in\n%s" % (
            CPU_LIMIT, WALL_LIMIT, "".join(traceback.format_stack(frame)[-12:])))
        finish()
    signal.signal(signal.SIGPROF, hang)
    signal.signal(signal.SIGALRM, hang)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    gc.disable()
    os.chdir(scratch)
    if quiet:
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    h = int.from_bytes(hashlib.sha256(str(seed).encode() if choices is None else b"replay").digest()[:4], "big")
    try:
        # every global random stream starts from a choice, so a replayed run starts from the same one
        s = ch.draw(1 << 30)
        np.random.seed(s)
        random.seed(s)
        clock = seams.SimClock()
        ent = random.Random(s ^ 0x5eed)
        seams.W.clock, seams.W.entropy = clock, lambda n: bytes(ent.getrandbits(8) for _ in range(n))
        seams.W.fs = seams.W.os = None
        seams.W.active = True
        ctx.clock = clock
        try:
            mod.run(ctx)
            if ctx.failed:
                raise Violation(*ctx.failed[0])
        finally:
            seams.W.active = False
        ctx.simtime += clock.total
    except Violation as v:
        ctx.simtime += seams.W.clock.total
        if ctx.failed:
            v = Violation(*ctx.failed[0])
        res.update(status="violation", kind=v.kind, msg=v.msg)
        ctx.ev("VIOLATION", v.kind)
    except HarnessError as e:
        res.update(status="error", msg="".join(traceback.format_exception(type(e), e, e.__traceback__)))
    except BaseException as e:
        if ctx.failed:
            res.update(status="violation", kind=ctx.failed[0][0], msg=ctx.failed[0][1])
        else:
            tb = traceback.extract_tb(e.__traceback__)
            kind = "exception:%s" % type(e).__name__
            res.update(status="violation", kind=kind,
                       msg="unexpected %s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_list(tb[-8:]))))
        ctx.ev("VIOLATION", res["kind"])
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)
    finish()


class Pool:
    """forks runs, at most `n` at a time"""
    def __init__(self, mod, tier, n, base):
        self.mod, self.tier, self.n, self.base = mod, tier, n, base
        self.sel = selectors.DefaultSelector()
        self.live = 0
        self.count = 0

    def submit(self, index, seed, choices=None, tag=None, quiet=True):
        self.count += 1
        scratch = os.path.join(self.base, "r%d" % self.count)
        os.mkdir(scratch)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                run_here(self.mod, index, seed, self.tier, choices, w, quiet, scratch)
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
            finally:
                os._exit(9)
        os.close(w)
        self.sel.register(r, selectors.EVENT_READ, dict(pid=pid, buf=bytearray(), index=index, seed=seed, tag=tag, scratch=scratch, t0=NOW()))
        self.live += 1

    def poll(self, timeout=1.0):
        """finished runs as (tag, Result)"""
        out = []
        for key, _ in self.sel.select(timeout):
            j = key.data
            data = os.read(key.fd, 1 << 20)
            if data:
                j["buf"] += data
                continue
            out.append(self._done(key))
        for key in list(self.sel.get_map().values()):
            if NOW() - key.data["t0"] > WALL_LIMIT + 30:       # not even its timer fired
                try:
                    os.kill(key.data["pid"], 9)
                except ProcessLookupError:
                    pass
        return out

    def _done(self, key):
        j = key.data
        self.sel.unregister(key.fd)
        os.close(key.fd)
        _, st = os.waitpid(j["pid"], 0)
        self.live -= 1
        shutil.rmtree(j["scratch"], ignore_errors=True)
        b = j["buf"]
        if len(b) >= 8 and len(b) - 8 == struct.unpack("!q", b[:8])[0]:
            res = Result(pickle.loads(bytes(b[8:])))
        else:
            how = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "status %d" % os.WEXITSTATUS(st)
            # the code under test took the whole process down
            res = Result(index=j["index"], status="violation", kind="process-died", msg="the process of the run died (%s)" % how,
                         choices=[], digest="", faults={}, probes={}, sig="", simtime=0.0, nontrivial=False, config={}, nev=0, log=[])
        res["seed"] = j["seed"]
        res["wall"] = NOW() - j["t0"]
        return j["tag"], res

    def kill(self):
        for key in list(self.sel.get_map().values()):
            try:
                os.kill(key.data["pid"], 9)
            except ProcessLookupError:
                pass
            self._done(key)

    def one(self, index, seed, choices=None, quiet=True):
        return self.many([(index, seed, choices)], quiet)[0]

    def many(self, jobs, quiet=True):
        res = [None] * len(jobs)
        todo = list(enumerate(jobs))
        while todo or self.live:
            while todo and self.live < self.n:
                k, (i, s, c) = todo.pop(0)
                self.submit(i, s, c, tag=k, quiet=quiet)
            for k, r in self.poll():
                res[k] = r
        return res


# ---------------------------------------------------------------------------------------------- minimisation
def simpler(a, b):
    return (len(a), sum(a)) < (len(b), sum(b))


def shrink(pool, res, budget_s, log):
    """smaller choice lists that still end in the same kind of violation"""
    if res.kind in ("hang", "process-died"):
        return res, 0
    best, t0, tried = res, NOW(), 0
    cache = set()

    def attempt(cands):
        nonlocal best, tried
        cands = [c for c in cands if tuple(c) not in cache]
        if not cands:
            return False
        for c in cands:
            cache.add(tuple(c))
        tried += len(cands)
        for r in pool.many([(res.index, None, c) for c in cands]):
            if r.status == "violation" and r.kind == res.kind:
                # the run may have used fewer choices than it was given
                if simpler(r.choices, best.choices):
                    best = r
                    return True
        return False
    improved = True
    while improved and NOW() - t0 < budget_s:
        improved = False
        n = len(best.choices)
        size = max(1, n // 2)
        while size >= 1 and NOW() - t0 < budget_s:
            cur = best.choices
            cands = []
            for s in range(0, len(cur), size):
                cands.append(cur[:s] + cur[s + size:])
                if any(cur[s:s + size]):
                    cands.append(cur[:s] + [0] * len(cur[s:s + size]) + cur[s + size:])
            hit = False
            for k in range(0, len(cands), pool.n):
                if NOW() - t0 > budget_s:
                    break
                if attempt(cands[k:k + pool.n]):
                    hit = improved = True
                    break
            if not hit:
                size //= 2
        cur = best.choices
        cands = []
        for k, v in enumerate(cur):
            if v > 1:
                cands += [cur[:k] + [v // 2] + cur[k + 1:], cur[:k] + [v - 1] + cur[k + 1:]]
        for k in range(0, len(cands), pool.n):
            if NOW() - t0 > budget_s:
                break
            if attempt(cands[k:k + pool.n]):
                improved = True
                break
    return best, tried


# ---------------------------------------------------------------------------------------------- known findings
def known_findings():
    """lines 'known: property=<id> kind=<regex> text=<regex> | <what fails>' (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) kind=(\S+) text=(.*?) \| (.*)", line.strip())
            if m:
                out.append(dict(property=m.group(1), kind=m.group(2), text=m.group(3), what=m.group(4)))
    return out


def is_known(prop, r):
    for k in known_findings():
        if k["property"] == prop and re.fullmatch(k["kind"], r.kind) and re.search(k["text"], r.msg):
            return k
    return None


# ---------------------------------------------------------------------------------------------- the check
def check(prop, tier, seed, runs=None, jobs=None, deadline=None, want_digests=False):
    t0 = NOW()
    load()
    mod = importlib.import_module("sim.props." + prop.lower())
    n = runs or mod.RUNS[tier]
    jobs = jobs or os.cpu_count() or 4
    if deadline is None:
        deadline = 300.0 if tier == "quick" else 3 * 3600.0
    base = tempfile.mkdtemp(prefix="gpyopt-sim-")
    pool = Pool(mod, tier, jobs, base)
    results, bad, errors, known = [], None, [], {}
    nxt = 0
    try:
        while (nxt < n or pool.live) and bad is None and not errors:
            while nxt < n and pool.live < jobs and NOW() - t0 < deadline:
                pool.submit(nxt, seed_of(seed, prop, nxt), tag=nxt)
                nxt += 1
            if NOW() - t0 >= deadline and not pool.live:
                break
            for _, r in pool.poll():
                results.append(r)
                if r.status == "error":
                    errors.append(r)
                elif r.status == "violation":
                    k = is_known(prop, r)
                    if k is not None:
                        known.setdefault(k["what"], r)
                    elif bad is None or r.index < bad.index:
                        bad = r
        search_wall = NOW() - t0
        if bad is None and not errors and hasattr(mod, "after") and tier == "thorough":
            mod.after(seed)
        replay = None
        if bad is not None:
            pool.kill()
            again = pool.one(bad.index, bad.seed)
            if again.status != "violation":
                again = pool.one(bad.index, bad.seed)
            if again.status != "violation":
                errors.append(Result(msg="run %d reported %s (%s) once but not when repeated: the simulation is not deterministic" % (bad.index, bad.kind, bad.msg)))
                bad = None
            else:
                small, tried = shrink(pool, again, getattr(mod, "SHRINK_S", 40.0), None)
                final = pool.one(small.index, None, small.choices) if small is not again else again
                if final.status != "violation":
                    final = again
                os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
                replay = os.path.join(OUT, "replays", "%s-%s.json" % (prop, hashlib.sha256(json.dumps(final.choices).encode()).hexdigest()[:10]))
                with open(replay, "w") as f:
                    json.dump(dict(property=prop, tier=tier, index=final.index, seed=bad.seed, original_choices=again.choices,
                                   choices=final.choices, kind=final.kind, message=final.msg, digest=final.digest,
                                   config=final.config, faults=final.faults, trace=final.log, shrink_attempts=tried), f, indent=1, default=str)
                bad = final
    finally:
        pool.kill()
        shutil.rmtree(base, ignore_errors=True)
    evidence(prop, mod, tier, seed, results, bad, errors, known, NOW() - t0, search_wall if not errors else NOW() - t0, jobs, n)
    for r in errors[:2]:
        sys.stderr.write("HARNESS ERROR in run %s\n%s\n" % (r.index, r.msg))
    for what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if bad is not None:
        print("run %d (seed %s), %d choices: %s: %s" % (bad.index, seed_of(seed, prop, bad.index), len(bad.choices), bad.kind, bad.msg))
        for line in bad.log[-25:]:
            print("    " + line[:200])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if errors:
        return 2
    print("%s held in %d simulated runs (%.1f s, %d distinct non-trivial)" % (
        prop, len(results), NOW() - t0, len({r.sig for r in results if r.nontrivial})))
    return 0


def evidence(prop, mod, tier, seed, results, bad, errors, known, wall, search_wall, jobs, n):
    import collections
    faults, probes, kinds = collections.Counter(), collections.Counter(), collections.Counter()
    for r in results:
        faults.update(r.faults)
        probes.update(r.probes)
        for k, v in r.config.items():
            kinds["%s=%s" % (k, v)] += 1
    sigs = {r.sig for r in results if r.nontrivial}
    samples = []
    for r in results[:2] + [r for r in results if r.faults][:2]:
        samples.append(dict(run=r.index, seed=seed_of(seed, prop, r.index), config=r.config, faults=r.faults, choices=len(r.choices),
                            events=r.nev, trace_head=[l[:160] for l in r.log[:12]]))
    ev = dict(property=prop, tier=tier, seed=int(seed) if str(seed).lstrip("-").isdigit() else 0, level=getattr(mod, "LEVEL", "exploration"), wall_s=round(wall, 3),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + ["interrupts and faults are delivered only at the seams (objective, surrogate, clock, random source, files, processes), not between arbitrary bytecodes"],
              violations=0 if bad is None else 1,
              coverage=dict(
                  evaluations=len(results), distinct_nontrivial=len(sigs),
                  rule=mod.RULE + " A run is non-trivial if it injected at least one fault or took at least one of the rare paths the check watches for; two runs are distinct if their configuration or their sequence of events differs.",
                  samples=samples, planned_runs=n,
                  runs_per_hour=int(3600 * len(results) / max(search_wall, 1e-9)), seeds_per_hour=int(3600 * len(results) / max(search_wall, 1e-9)),
                  simulated_seconds=round(sum(r.simtime for r in results), 3),
                  faults_injected=dict(faults), rare_conditions_reached=dict(probes),
                  events=sum(r.nev for r in results), choices=sum(len(r.choices) for r in results),
                  distinct_event_traces=len({r.digest for r in results}),
                  distinct_measure="hash of configuration and sequence of event kinds (calls, faults, task switches, outcomes)",
                  configurations=dict(kinds.most_common(120)),
                  real_components=mod.REAL, stub_components=mod.STUB, workers=jobs,
                  harness_errors=len(errors), known_findings=sorted(known)))
    if bad is not None:
        ev["coverage"]["violation"] = dict(kind=bad.kind, message=bad.msg[:2000], run=bad.index)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    p = os.path.join(OUT, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


def replay(path, verbose=True):
    d = json.load(open(path))
    load()
    mod = importlib.import_module("sim.props." + d["property"].lower())
    base = tempfile.mkdtemp(prefix="gpyopt-sim-")
    try:
        pool = Pool(mod, d["tier"], 1, base)
        r = pool.one(d["index"], None, d["choices"])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for line in r.log:
        print("    " + line[:200])
    same = r.status == "violation" and r.kind == d["kind"]
    print("%s %s; trace digest %s" % (r.status, r.kind, "identical" if r.digest == d["digest"] else "DIFFERENT"))
    if same:
        print("%s: %s" % (r.kind, r.msg))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0 if r.status == "ok" else 2


def c10_child():
    """a fresh interpreter executes the program of a C10 run"""
    load()
    mod = importlib.import_module("sim.props.c10")
    ch = Choices(replay=[int(v) for v in os.environ["SIM_C10_CHOICES"].split(",")])
    ctx = Ctx(ch)
    ctx.scratch = os.getcwd()
    s = ch.draw(1 << 30)
    np.random.seed(s)
    random.seed(s)
    ctx.clock = seams.W.clock = seams.SimClock()
    seams.W.active = True
    mod.run(ctx)
    return 0


def digests(prop, tier, seed, runs, jobs):
    """index -> digest, for the determinism self-test"""
    load()
    mod = importlib.import_module("sim.props." + prop.lower())
    base = tempfile.mkdtemp(prefix="gpyopt-sim-")
    try:
        pool = Pool(mod, tier, jobs, base)
        rs = pool.many([(i, seed_of(seed, prop, i), None) for i in range(runs)])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return [(r.index, r.digest, r.status) for r in rs]
