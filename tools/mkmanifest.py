#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built worlds."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
BUILT = {}
def world(id, technique, note):
    BUILT[id] = (technique, note)
exec(open(os.path.join(here, "worlds.py")).read())
NA = {
 "N03": "a statement about probability distributions resting on cryptographic assumptions: no simulated run can falsify or support it (fresh, unrepeated blinding entropy is claimed in C08)",
 "N04": "the simulator controls logical time only and has no model of instruction timing or caches; the library does not promise constant time either",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        t, n = BUILT[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "its world in the simulator is not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams used are the reader/writer arguments, the constraint-system and parameter traits, the macros' clap import, and the C library symbols for files and entropy, which the simulator executable defines itself. Known findings: KNOWN_FINDINGS.md."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
