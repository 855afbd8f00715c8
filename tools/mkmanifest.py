#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c.get("level", "exploration"),
                   "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": checks,
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in CHECKS],
     "notes": "run.py builds the harness crates (path dependencies on /repo/crates) in several build flavours into /verif/target and judges what their monitors report; python3 run.py --replay FILE re-runs the case of a replay file."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
