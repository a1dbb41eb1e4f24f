#!/usr/bin/env python3
"""Print a recorded violation compactly: message and the end of its history."""
import json, sys
d = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 14
h = d.get("history", "").split("\n")
print(d["key"], d["suite"], d["case"])
for l in h[:2] + ["..."] + h[-n:]:
    print(l[:1500])
print(d["msg"][:3000])
