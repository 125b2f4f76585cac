#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.CHECKS and the notes below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks
from tools.notes import NOTES, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS and p in NOTES:
        t, n = NOTES[p]
        m["checks"].append({"property": p, "quick_cmd": "./check.py %s quick" % p, "thorough_cmd": "./check.py %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "the check is not built yet")})
m["notes"] = "TLA+ with TLC; see DESIGN.md. No hooks in /repo: the adapter is observed from outside (gRPC, fake API server, fake identity provider)."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
