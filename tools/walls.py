"""mean wall time of runs per configuration value: tools/walls.py PROP N"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import collections, importlib, tempfile
from sim import runner
runner.load()
prop, n = sys.argv[1], int(sys.argv[2])
mod = importlib.import_module("sim.props." + prop.lower())
base = tempfile.mkdtemp()
rs = runner.Pool(mod, "quick", 8, base).many([(i, runner.seed_of(77, prop, i), None) for i in range(n)])
d = collections.defaultdict(list)
for r in rs:
    if r.status != "ok":
        print(r.index, r.status, r.kind, (r.msg or "")[-600:])
    for k, v in r.config.items():
        d[k, str(v)].append(r.wall)
for k, v in sorted(d.items(), key=lambda t: -sum(t[1])):
    print(k, len(v), "mean %.2f max %.2f sum %.1f" % (sum(v) / len(v), max(v), sum(v)))
