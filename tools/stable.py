"""names the stable tests that do not pass"""
import json, sys
o = json.load(open(sys.argv[1]))
b = json.load(open("/opt/vp/BASELINE.json"))
bad = sorted(set(b["stable"]) - set(o["passed"]))
print("ok" if not bad else "BROKEN:" + ";".join(bad)[:300])
