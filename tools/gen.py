#!/usr/bin/env python3
"""Writes MANIFEST.json and rules.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
G = "rapid-generated "
GATE = " Schedules are those of the gate scheduler (generated release order of user callbacks) plus free-running race-detector runs; schedules inside pargo between two callbacks are the Go runtime's choice."
T = {
 "P01": ("property-based testing: generated calls and callback schedules, interval-algebra oracle, race detector",
   "the call has at least two functions, and in scheduled runs at least two callbacks were parked at once or at least three ran; distinct = distinct generated case"),
 "P02": ("property-based testing: generated ranges and schedules, exact-partition oracle with order-checking joins",
   "at least two batches were executed (scheduled runs) or the range has at least two elements (race runs); distinct = distinct generated case"),
 "P03": ("property-based testing of invalid arguments against the documented precondition",
   "the arguments are invalid (high < low or n < 0); distinct = distinct generated case"),
 "P04": ("property-based testing: generated rendezvous patterns, deadlock reported exactly by the Go runtime",
   "at least two functions or batches were executed; distinct = distinct generated case"),
 "P05": ("property-based testing with injected panics and generated schedules, left-most-panic oracle",
   "at least two functions or batches took part; distinct = distinct generated case"),
 "P06": ("property-based testing: generated decisive sets and completion orders, left-most-decision oracle",
   "at least two functions or batches took part; distinct = distinct generated case"),
 "P07": ("property-based testing: functions right of the decision block until the return; deadlock reported exactly by the Go runtime",
   "at least two functions or batches took part; distinct = distinct generated case"),
}
import sys
sys.path.insert(0, os.path.join(V, "tools"))
try:
    from rules_more import MORE
    T.update(MORE)
except ImportError:
    pass
checks = []
for p in props:
    i = p["id"]
    if i not in T:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.py %s quick" % i,
        "thorough_cmd": "./check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": T[i][0],
        "level": "exploration",
        "level_note": (T[i][2] if len(T[i]) > 2 else "Held on every generated case of the run; nothing is claimed beyond the generated inputs.") + GATE,
    })
m = {
    "version": 1,
    "setup_cmd": "./check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in T],
    "notes": "All checks are black-box against the public API of the packages in /repo, built from its working tree into a temporary directory; no hooks in /repo. Replay a saved case with ./check.py --replay FILE [REPEAT].",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump({k: v[1] for k, v in T.items()}, open(os.path.join(V, "rules.json"), "w"), indent=1)
