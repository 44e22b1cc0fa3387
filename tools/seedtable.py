#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.append((m["property"], i, m["what_it_breaks"].replace("|", "/").replace("\n", " "), m["needs"].replace("|", "/").replace("\n", " ")))
rows.sort()
t = "<!-- seeds -->\n| Caught by | Change | What it breaks | Needs |\n|---|---|---|---|\n"
t += "".join(f"| {p} | {i} | {b} | {n} |\n" for p, i, b, n in rows) + "<!-- /seeds -->"
s = open(root + "/DESIGN.md").read()
s = re.sub(r"SEEDTABLE|<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
