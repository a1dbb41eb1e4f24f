#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md with the tables of findings and planted changes filled in."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = HERE + "/.."
text = open(HERE + "/design.md").read()
fs = json.load(open(V + "/known_findings.json"))["findings"]
fixed = "\n".join(f"* {f['property']} `{f['commit']}` {f['what']}" for f in fs if f["status"] == "fixed")
rows = []
caught = json.load(open(HERE + "/caught.json")) if os.path.exists(HERE + "/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, m['property'])} |")
seeds = "| id | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
open(V + "/DESIGN.md", "w").write(text.replace("@FIXED@", fixed).replace("@SEEDS@", seeds))
