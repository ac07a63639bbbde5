#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/missed.txt."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}
p = os.path.join(V, "tools", "missed.txt")
if os.path.exists(p):
    for l in open(p):
        if l.strip():
            k, _, v = l.strip().partition(" ")
            missed[k] = v
rows = ["<!-- seeds -->", "| bug | property | caught by | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], missed.get(i, m["property"]), m["needs"].replace("|", "\\|")))
rows.append("<!-- /seeds -->")
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
s = re.sub(r"<!-- seeds -->(.*<!-- /seeds -->)?", lambda _: "\n".join(rows), s, flags=re.S)
open(d, "w").write(s)
