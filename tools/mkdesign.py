#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json (development aid)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/caught.json"))
rows = []
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    k = p.split("/")[-2]
    d = json.load(open(p))
    rows.append("| %s | %s | %s; needs %s | %s |" % (k, d["property"], d["what_it_breaks"], d["needs"], c.get(k, "?")))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
