#!/usr/bin/env python3
"""writes MANIFEST.json from jobs.py and properties.jsonl"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import jobs
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    p = jobs.PROPERTIES.get(i)
    if p is None:
        na.append({"property": i, "reason": jobs.NOT_APPLICABLE.get(i, "no monitor for it yet") if hasattr(jobs, "NOT_APPLICABLE") else "no monitor for it yet"})
        continue
    checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: monitors enter through go test -overlay and a private -modfile; see DESIGN.md."}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
