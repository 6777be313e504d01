"""Writes /verif/MANIFEST.json from the checks in sim/props."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C19": "A pure function of its arguments: no schedule, clock, I/O, fault or history can change the gradient of an acquisition, so there is nothing for a simulator to decide; seeded schedules would degenerate into input sampling against finite differences.",
 "C20": "Encoding and rounding are pure functions of the declared domain and a point; no source of nondeterminism or fault is involved (their effect on proposals is decided end to end by C01).",
 "C21": "A pure function of the domain, the size and the random stream; no schedule, time, I/O or fault enters (that designs lie in the domain and follow the seed is decided by C01, C02 and C10).",
 "C22": "Closed-form arithmetic on the surrogate's mean and deviation; no schedule, time, I/O, fault or history enters.",
 "C23": "Rendering of given data by matplotlib: a pure function of its arguments, no schedule, time, fault or history enters that the other properties do not already decide.",
}
TECH = {
 "C04": "deterministic simulation: simulated pool of asynchronous workers (finish, crash, replace in any order) against a model of the known locations",
 "C06": "deterministic simulation: simulated clock with stalls and steps against a reference stopping automaton",
 "C08": "deterministic simulation: simulated processes and bounded pipes, seeded scheduler, crash and start faults; sequential reference and deadlock detection",
 "C10": "deterministic simulation: the same seed re-executed under other clocks, entropy streams and hash seeds; traces compared",
 "C11": "deterministic simulation: threads scheduled at statement granularity by a seeded scheduler, compared with solo runs",
 "C12": "deterministic simulation: simulated disk (short writes, full disk, write/open/close errors, interrupts), bytes parsed back independently",
 "C13": "deterministic simulation: faulty histories and crash/restart, twin optimizer restarted from the record",
 "C16": "deterministic simulation: simulated disk faults under the progress log, bytes parsed back against a reference of the due rows",
 "C17": "deterministic simulation: configuration files on a simulated disk with read faults, driver under a simulated clock against an independently built twin",
 "C18": "deterministic simulation: failures injected at every inner step of predictions, state compared before and after",
 "C24": "deterministic simulation: histories with aborted calls and broken local searches; proposals compared with the acquisition (published formula) at the candidates the search itself scored, and with the known optimum of linear surrogates",
 "C25": "deterministic simulation: histories with failures at any inner step; fingerprints of everything handed over compared after every call",
}
DEF = "deterministic simulation with fault injection: seeded campaigns with objective, surrogate and clock faults, histories judged by an independent model"
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "sim", "props", i.lower() + ".py")
    if i in NA or not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
        continue
    ns = dict(REAL=[], STUB=[], ASSUMPTIONS=[])
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ns:
            ns[node.targets[0].id] = ast.literal_eval(node.value)
    note = ("Seeded search over simulated executions: every run is one seed, failures are confirmed by re-execution, minimised and replayable. Evidence of absence only for what was explored. "
            "Real: %s. Stubbed: %s. Assumes: %s." % ("; ".join(ns["REAL"]), "; ".join(ns["STUB"]), "; ".join(ns["ASSUMPTIONS"]) or "nothing further"))
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEF), "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 -c \"import os; os.makedirs('evidence', exist_ok=True); os.makedirs('replays', exist_ok=True)\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (clock, OS entropy, files, processes, threads, objective, surrogate) is reached from outside. See DESIGN.md; known_findings.txt lists the repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
