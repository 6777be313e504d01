"""Optimizers used side by side do not influence each other."""
import dis
import os
import pickle
import random as _random
import sys

from ..core import Choices, Ctx
from ..sched import Sched, SimStop, Stream
from ..session import *
from .. import runner, seams
ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 300, "thorough": 20000}
RULE = ("A run draws two or three programs (different problems, or the same problem with another objective) with runs, requests, contexts, constraints, pending points and "
        "failing objectives. Each is executed alone in a pristine process, then all of them together in one process: either their calls interleaved by the scheduler, or in "
        "threads that the scheduler preempts between any two lines of GPyOpt. Every program has its own random stream. Each trace (proposals, records, results) must be "
        "bit for bit the one obtained alone.")
REAL = ["GPyOpt", "GPy surrogates in about 10% of the programs", "scipy L-BFGS-B, cma"]
STUB = ["surrogate: TinyGP behind BOModel in the others", "objective", "clock", "OS entropy", "thread scheduler (threads run one at a time)"]
ASSUMPTIONS = ["threads are preempted between source lines of GPyOpt, not inside libraries", "every thread has its own state of numpy's global generator"]

MUTATORS = {"append", "extend", "insert", "update", "add", "pop", "clear", "setdefault", "remove", "setattr", "seed"}


def DUR(plan):
    return (lambda k: [0.5, 2.0, 0.25, 16.0, 1.0][(k + plan["obj"]) % 5]) if plan["sp"].cost else None


def stream(seed):
    st = np.random.RandomState(seed)
    return Stream((st.get_state(), _random.Random(seed).getstate()))


def rank(frame, memo={}):
    """how likely does this function share state with other objects? (guides the search only)
    2: it stores into, or refers to, something that belongs to a module or class; 1: it stores into some object; 0: otherwise"""
    code = frame.f_code
    if code not in memo:
        ins = list(dis.get_instructions(code))
        r = int(code.co_name != "__init__" and (any(i.opname in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_ATTR", "DELETE_SUBSCR") for i in ins) or bool(MUTATORS & set(code.co_names))))
        if {"exec", "globals", "setattr", "__dict__", "vars"} & set(code.co_names):
            r = 2
        owner = type(frame.f_locals.get("self"))
        for i, prev in zip(ins, [None] + ins):
            if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL") or (i.opname == "STORE_ATTR" and not (prev.opname.startswith("LOAD_FAST") and prev.argval != "cls")):
                r = 2
        for name in code.co_names:
            held = [frame.f_globals.get(name)] + [vars(c)[name] for c in owner.__mro__ if name in vars(c)]
            if any(isinstance(h, (list, dict, set, np.ndarray, bytearray)) for h in held):
                r = 2
        memo[code] = r
    return memo[code]


def alone(ctx, plan, seed, root):
    """the trace of one program in a process of its own, and the functions of GPyOpt it calls"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            stream(seed).load()
            seen = set()

            def note(frame, event, arg):
                f = frame.f_code
                if f.co_filename.startswith(root) and f.co_name != "<module>":
                    seen.add((f.co_filename[len(root):], f.co_firstlineno, f.co_name, rank(frame)))
            try:
                if root:
                    sys.settrace(note)
                tr = Session(ctx, plan, dur=DUR(plan), seed=False).run()
                sys.settrace(None)
                out = ("ok", (tr, seen))
            except BaseException as e:
                import traceback
                out = ("err", "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_list(traceback.extract_tb(e.__traceback__)[-6:]))))
            data = pickle.dumps(out, protocol=4)
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise HarnessError("the process of a program died")
    st, v = pickle.loads(buf)
    if st == "err":
        raise Violation("exception", "a program executed alone failed: %s" % v)
    return v


def run(ctx):
    ch = ctx.ch
    n = ch.weighted([(4, 2), (1, 3)])
    mode = ch.pick(["calls", "threads", "threads"])
    limited = ch.chance(0.5)         # every program has constraints
    ctx.config["mode"] = mode
    plans, doms = [], []
    for k in range(n):
        dom = doms[0] if (k and ch.chance(0.35)) else None
        p = gen_plan(ctx, real=0.1 if mode == "calls" else 0.0, nops=(3 if n == 2 else 2) if mode == "calls" else ch.pick([1, 1, 1, 3]), max_batch=3 if mode == "calls" else 2, cmas=mode == "calls", contexts=0.35, faults=0.25, cheap=True, dom=dom,
                     costs=0.3 if mode == "calls" else 0.0, cons=1.0 if limited else 0.15, kinds=("cont", "mixed", "finite") + (() if limited else ("bandit",)))
        p["X"] = None
        if k and ch.chance(0.5) and p["sp"].model == plans[0]["sp"].model == "tiny" and p["sp"].acq != "ES" and plans[0]["sp"].acq != "ES" and not p["sp"].cost and not plans[0]["sp"].cost:
            p["sp"]["acq"] = plans[0]["sp"]["acq"]
        if k and ch.chance(0.5):
            # records of the same size
            p["sp"]["n_init"], p["sp"]["normalize"] = plans[0]["sp"]["n_init"], plans[0]["sp"]["normalize"]
        plans.append(p)
        doms.append(p["dom"])
    seeds = [ch.draw(1 << 30) for _ in plans]
    root = os.path.join(os.path.abspath(runner.REPO), "GPyOpt") + os.sep
    if any(p["sp"].cost for p in plans):
        import GPy          # the hyper-parameters of the regressions stay at their initial values
        GPy.models.GPRegression.optimize = lambda m, *a, **k: None
        GPy.models.GPRegression.optimize_restarts = lambda m, *a, **k: None
    solo = [alone(ctx, p, s, root if mode == "threads" else None) for p, s in zip(plans, seeds)]
    want = [t for t, _ in solo]
    sessions = [Session(ctx, p, dur=DUR(p), seed=False) for p in plans]

    def judge(k):
        diff = first_difference(want[k], sessions[k].trace)
        require(diff is None, "influenced", lambda: "program %d of %d (%s) differs from its execution alone: alone/together: %s" % (k, n, mode, diff))

    if mode == "calls":
        streams = [stream(s) for s in seeds]
        order = []
        while True:
            left = [k for k in range(n) if sessions[k].k < sessions[k].n]
            if not left:
                break
            k = ch.pick(left)
            order.append(k)
            streams[k].load()
            sessions[k].step()
            streams[k].save()
        if any(a != b for a, b in zip(order, order[1:])):
            ctx.fault("schedule:interleaved-calls")
        for k in range(n):
            judge(k)
        return

    sched = Sched(ctx, ctx.clock)
    sched.trace = False
    targets = set()
    if ch.chance(0.7):
        # a few functions that several programs call are preempted densely, the others never
        shared = sorted(f for f in set().union(*[c for _, c in solo]) if sum(f in c for _, c in solo) > 1)
        narrow = ch.pick([0, 1, 2, 2])       # only such functions as store into something, or share something
        shared = [f for f in shared if f[3] >= narrow] or [f for f in shared if f[3]] or shared
        targets = {ch.pick(shared)[:3] for _ in range(ch.pick([6, 3, 2]) if narrow else 6)}
        ctx.config["targeted"] = True
        period, cap = ch.pick([2, 1, 5]), 1000
    else:
        period, cap = ch.pick([400, 1500, 60, 15]), 400
    st = dict(left=ch.between(1, period), n=0, held=None)

    def local(frame, event, arg):
        if event == "line":
            st["left"] -= 1
            if st["left"] <= 0 and st["n"] < cap and not sched.stopped:
                st["left"] = ch.between(1, period)
                st["n"] += 1
                me = sched.cur
                if st["held"] is None and ch.chance(0.3):
                    # this thread does not continue before the others have made some progress
                    st["held"], until = me, min(cap, st["n"] + ch.pick([10, 40, 200]))
                    sched.block(lambda: st["n"] >= until or all(t.dead for t in tasks if t is not me), "held")
                    st["held"] = None
                else:
                    sched.pause("preempted")
                if sched.stopped:
                    raise SimStop()
        return local

    def tracer(frame, event, arg):
        f = frame.f_code
        if not f.co_filename.startswith(root) or f.co_name == "<module>":
            return None
        if not targets or (f.co_filename[len(root):], f.co_firstlineno, f.co_name) in targets:
            return local
        return None

    def body(s):
        def go():
            sys.settrace(tracer)
            try:
                s.run()
            finally:
                sys.settrace(None)
        return go
    tasks = [sched.spawn("t%d" % k, body(s), stream=stream(seed)) for k, (s, seed) in enumerate(zip(sessions, seeds))]
    sched.block(lambda: all(t.dead for t in tasks), "end of the threads")
    ctx.faults["schedule:preemption"] += st["n"]
    ctx.nontrivial = True
    ctx.ev("switches", sched.switches)
    for k, t in enumerate(tasks):
        if t.error is not None:
            import traceback
            raise Violation("exception-in-thread", "program %d failed next to another one with %s: %s\n%s" % (
                k, type(t.error).__name__, t.error, "".join(traceback.format_list(traceback.extract_tb(t.error.__traceback__)[-8:]))))
        judge(k)
