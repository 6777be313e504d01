"""The same seed reproduces the same run."""
import os
import random as _random
import subprocess
import sys

from ..session import *
from .. import seams
ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 30000}
RULE = ("A run draws a program (problem, design, surrogate, acquisition, local optimizer, batch policy, runs, requests, contexts) and executes it twice with the same numpy seed: "
        "the second time with another wall clock (also moving with every reading), other evaluation durations, other operating-system entropy, another process id, another "
        "state of Python's own random module, and after other GPyOpt work in the same process; in a few runs both executions are fresh interpreters with different hash seeds. "
        "All proposals and records must agree bit for bit.")
REAL = ["GPyOpt", "GPy surrogates (GP, sparse GP, MCMC GP, warped GPs) in about 30% of the runs", "entropy search with emcee", "scipy L-BFGS-B, cma, pyDOE, sobol_seq"]
STUB = ["surrogate: TinyGP behind BOModel in the other runs", "objective", "clock", "OS entropy", "process id"]
ASSUMPTIONS = ["programs without time limits and without evaluation-time costs (their outcome depends on durations by design)", "single-threaded BLAS"]
SHRINK_S = 50.0


def world(ctx, k, tick=0.001953125):
    """everything the second execution sees differently"""
    c = ctx.clock
    ent = _random.Random(99 + k)
    seams.W.entropy = lambda n: bytes(ent.getrandbits(8) for _ in range(n))
    _random.seed(1234 + k)
    pid = 4000 + 17 * k
    os.getpid = lambda: pid
    if k:
        c.step(3.1e8 + 0.123 * k)
        c.advance(777.0)
        c.on_read = lambda: c.advance(tick)
    else:
        c.on_read = None


def run(ctx):
    ch = ctx.ch
    prefer = ch.weighted([(32, None), (2, "ES"), (1, "CMA"), (1, "GP_MCMC"), (1, "input_warped_GP")])
    plan = gen_plan(ctx, real=0.25, nops=3, prefer=prefer)
    fresh = ch.chance(0.02)
    other = gen_plan(ctx, real=0.0, nops=1) if ch.chance(0.3) else None
    if os.environ.get("SIM_C10_CHILD"):
        world(ctx, int(os.environ["SIM_C10_CHILD"]))
        s = Session(ctx, plan)
        with open(os.environ["SIM_C10_OUT"], "w") as f:
            f.write(digest(s.run()))
        return
    if fresh:
        ctx.fault("environment:fresh-process-other-hash-seed")
        ds = []
        for k, hs in enumerate(("0", str(1 + ch.draw(4000)))):
            out = os.path.join(ctx.scratch, "d%d" % k)
            env = dict(os.environ, SIM_C10_CHILD=str(k), SIM_C10_OUT=out, SIM_HASHSEED=hs, SIM_C10_CHOICES=",".join(map(str, ch.rec)))
            env.pop("PYTHONHASHSEED", None)
            env.pop("SIM_REEXEC", None)
            seams.W.active = False
            top = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
            p = subprocess.run([sys.executable, os.path.join(top, "check.py"), "--c10-child"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            seams.W.active = True
            if not os.path.exists(out):
                raise HarnessError("fresh interpreter failed: %s" % p.stderr.decode()[-2000:])
            ds.append(open(out).read())
        require(ds[0] == ds[1], "not-reproduced", "two fresh interpreters with the same seed and hash seeds 0 and %s end with different traces" % hs)
        return
    world(ctx, 0)
    A = Session(ctx, plan).run()
    if other is not None:
        ctx.fault("environment:other-work-between")
        Session(ctx, other).run()
    world(ctx, 1, ch.pick([0.001953125, 0.25, 8.0]))
    ctx.fault("environment:other-clock-entropy-pid")
    d = [3.0, 0.5, 100.0]
    B = Session(ctx, plan, dur=lambda k: d[k % 3]).run()
    diff = first_difference(A, B)
    require(diff is None, "not-reproduced", lambda: "two executions with the same seed differ: %s" % diff)
    # the same seed without going back to it must not be needed for designs either
    ctx.ev("trace", digest(A)[:12])
