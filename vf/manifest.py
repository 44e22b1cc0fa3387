#!/usr/bin/env python3
"""Writes MANIFEST.json from the table and properties.jsonl."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS, NOTES, NOT_APPLICABLE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
checks = []
for p in ids:
    if p in PROPS:
        tech, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": f"python3 vf/check.py {p}", "thorough_cmd": f"python3 vf/check.py {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 vf/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "No check built yet.")} for p in ids if p not in PROPS],
     "notes": "No hooks: every monitor attaches to public interfaces, link-time wrappers (--wrap) and the sanitizers. See DESIGN.md."}
with open(f"{ROOT}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
