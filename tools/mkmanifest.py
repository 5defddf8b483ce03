#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from pyvc/meta.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from pyvc.meta import META
NA = {}
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks = []
for i in ids:
    if i in META:
        d = META[i]
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i} quick", "thorough_cmd": f"python3-vt check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": d["technique"], "level": d["level"], "level_note": d["note"]})
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in META]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "no hooks: the verifier reads the unmodified sources of /repo on every run"}, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
