#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(V + "/properties.jsonl")]
NOTE = {
    "C01": "Searches federations of up to ~10 entities with hostile networks, key rotations and presented chains; not exhaustive.",
}
GEN = ("Seeded random search over scenarios (topology, operations, faults) run against the real fedservice code in one process under "
       "a simulated clock, network, disk and randomness; nothing is claimed beyond the scenarios a run explored.")
NA = {
    "C19": "A pure function of one message: no concurrency, time, I/O or second party for a simulation to vary; the message classes' "
           "verify() methods are exercised inside every other check, but deciding them is not a job for this technique.",
}
TECH = {
    "C18": "deterministic simulation: real threads under a seeded baton scheduler that picks the running thread at every network, "
           "lock and traced-line point, with fault injection; oracle = some serial order / reference",
}
TECH_DEFAULT = ("deterministic simulation with fault injection: seeded search over federations, operation histories and fault schedules; "
                "oracle = independent executable reference + invariants over the recorded history")
checks, na = [], []
for p in ids:
    f = f"{V}/props/{p.lower()}.py"
    if os.path.exists(f):
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
                       "thorough_cmd": f"python3 check.py {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": TECH.get(p, TECH_DEFAULT),
                       "level": "exploration", "level_note": NOTE.get(p, GEN)})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (clock, randomness, network transport, disk, threads) is taken from outside. "
              "Replay: python3 check.py --replay out/<file>.json"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
