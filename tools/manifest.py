#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN, CLAIMED, NA
TECH = "deterministic simulation with fault injection: seeded runtime-level scheduler, simulated clock"
NOTE = {"mem": "seeded search over schedules (scheduling point at every channel, lock, atomic, spawn and memory operation of the code under test), "
               "workloads, clock jumps, stalls and faults; evidence of absence only for the runs executed",
        "race": "the same scenarios in a race-detector build of the simulator: happens-before races in the schedules executed; no alarm without a real race"}
checks = []
for p in CLAIMED:
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "exploration",
                   "level_note": NOTE[PLAN[p].get("mode", "mem")]})
m = {"version": 1, "setup_cmd": "python3 simbuild.py mem race", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
