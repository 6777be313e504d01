#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--runs N] [--jobs N] | --replay FILE | --digests PROP"""
import os
import sys

PY = os.environ.get("GPYOPT_PYTHON", "/opt/venv/bin/python")
FIXED = dict(PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", MPLBACKEND="agg", PYTHONWARNINGS="ignore", SIM_REEXEC="1")
if os.environ.get("SIM_REEXEC") != "1":
    env = dict(os.environ, **FIXED)
    if not os.access(env.get("MPLCONFIGDIR", "/opt/vp/cache/mpl"), os.W_OK):
        env["MPLCONFIGDIR"] = "/tmp"
    else:
        env.setdefault("MPLCONFIGDIR", "/opt/vp/cache/mpl")
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import runner  # noqa: E402

if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("property", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a.add_argument("--runs", type=int)
    a.add_argument("--jobs", type=int)
    a.add_argument("--deadline", type=float)
    a.add_argument("--replay")
    a.add_argument("--digests", action="store_true")
    a.add_argument("--c10-child", action="store_true")
    o = a.parse_args()
    if o.c10_child:
        sys.exit(runner.c10_child())
    if o.replay:
        sys.exit(runner.replay(o.replay))
    if o.digests:
        for t in runner.digests(o.property, o.tier, o.seed, o.runs or 20, o.jobs or 8):
            print(*t)
        sys.exit(0)
    sys.exit(runner.check(o.property, o.tier, o.seed, o.runs, o.jobs, o.deadline))
