#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

TECH = {
    "query": "bounded-exhaustive enumeration of dictionaries, queries and bounds on the real code, against a reference model",
    "dict": "bounded-exhaustive enumeration of operation sequences on the real code, against a set/graph model",
    "distance": "bounded-exhaustive enumeration of term pairs, triples and call histories on the real code",
    "lazy": "exhaustive enumeration of interleavings and operation sequences of the real code",
    "automaton": "bounded-exhaustive enumeration of edit histories and positions of the real automaton",
    "serial": "exhaustive enumeration of damage and fault points of real saves and loads",
    "faults": "exhaustive enumeration of allocation failures of the real code",
    "schema": "bounded-exhaustive enumeration of dictionaries and of their encodings, real saves decoded and real loads compared",
    "explore": "bounded-exhaustive enumeration of queries on the real code with poisoned memory outside the part that may be read",
    "demo": "bounded-exhaustive enumeration of sessions with the real program",
    "threads": "stateless model checking of real threads: preemption-bounded schedule enumeration with happens-before race detection",
}
checks = []
for prop in sorted(CHECKS):
    c = CHECKS[prop]
    tech = TECH[c["harness"]]
    if prop == "C14":
        tech = "bounded-exhaustive enumeration of dictionaries, overloads and file histories on the real code"
    checks.append({
        "property": prop,
        "quick_cmd": "python3 run.py %s quick" % prop,
        "thorough_cmd": "python3 run.py %s thorough" % prop,
        "evidence_file": "evidence/%s.json" % prop,
        "technique": tech,
        "level": c["level"],
        "level_note": "Decides: " + c["rule"] + ". Trusts: " + "; ".join(c["assumptions"]) + ".",
    })
props = [json.loads(l)["id"] for l in open(os.path.join(B.VERIF, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "not claimed"} for p in props if p not in CHECKS],
     "notes": "No hooks: /repo carries only fix: commits. See DESIGN.md."}
with open(os.path.join(B.VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
