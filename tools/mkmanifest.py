#!/usr/bin/env python3
"""Writes MANIFEST.json from run/specs.py (run: python3 tools/mkmanifest.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/../run")
sys.dont_write_bytecode = True
from specs import SPECS
ids = [json.loads(l)["id"] for l in open(HERE + "/../properties.jsonl")]
checks = []
for i in ids:
    if i not in SPECS: continue
    s = SPECS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run/check.py {i} quick",
        "thorough_cmd": f"python3 run/check.py {i} thorough",
        "technique": s["technique"],
        "level": s["level"],
        "level_note": s["level_note"],
    })
na = [{"property": i, "reason": "no check claimed yet"} for i in ids if i not in SPECS]
with open(HERE + "/../MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 run/setup.py",
               "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
