#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs.py and properties.jsonl."""
import json, os, subprocess, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from specs import SPECS, NA
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    if p not in SPECS: continue
    s = SPECS[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": s["technique"], "level": "exploration", "level_note": s["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest",
     "hooks": {"guard": "SALTICIDAE_VERIF_MPMCQ_SIZE", "enable": "-DSALTICIDAE_VERIF_MPMCQ_SIZE=<n> on the harness compiler command line (queue, event loop and simulated network checks)",
               "source_commits": [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines() if " hook:" in l]},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in SPECS],
     "notes": "All checks are property-based tests / fuzzers over the real sources in /repo, compiled with ASAN+UBSan from the working tree by check.py. Findings: KNOWN_FINDINGS.jsonl. Design: DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
