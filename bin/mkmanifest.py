#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import check
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in check.CHECKS:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                   "technique": "TLA+ specification (%s) checked with TLC; behaviours generated from it replayed in the real code and recorded runs validated against it by TLC" % check.SPECS[i][0],
                   "level": "model_checking",
                   "level_note": check.SPECS[i][1] + " The model is exhaustive within its constants; the code is bound to it by the replayed and seeded random runs, so code paths that no run takes are not covered. Trusted: TLC, Go, the recording driver."})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the drivers use the exported API and build flags (overlay, workspace) only. Known findings: known_findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
