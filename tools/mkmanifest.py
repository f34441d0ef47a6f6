#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
from table import CHECKS, NOT_APPLICABLE
checks, na = [], []
for line in open(f"{V}/properties.jsonl", encoding="utf-8"):
    pid = json.loads(line)["id"]
    if pid in CHECKS:
        c = CHECKS[pid]
        checks.append({"property": pid, "quick_cmd": f"./check {pid} quick", "thorough_cmd": f"./check {pid} thorough",
                       "evidence_file": f"evidence/{pid}.json", "technique": c["technique"], "level": c["level"],
                       "level_note": c["note"]})
    else:
        na.append({"property": pid, "reason": NOT_APPLICABLE[pid]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(f"{V}/MANIFEST.json", "w", encoding="utf-8"), indent=1, ensure_ascii=False)
