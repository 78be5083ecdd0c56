#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE, LEVEL_NOTES

m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": [],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
    "notes": "Deterministic simulation with fault injection; python3 run.py <property> quick|thorough. The whole run is decided by VERIF_SEED. No hooks in the repository: the simulated disk interposes system calls, the thread scheduler uses compiler instrumentation of the harness. Replay: bash replay.sh <property> <replay file>. Known and fixed findings: known-findings.txt.",
}
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    m["checks"].append({
        "property": pid,
        "quick_cmd": "python3 run.py %s quick" % pid,
        "thorough_cmd": "python3 run.py %s thorough" % pid,
        "technique": "deterministic simulation with fault injection",
        "level": c["level"],
        "level_note": c.get("note", LEVEL_NOTES[c["level"]]),
        "evidence_file": "evidence/%s.json" % pid,
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
