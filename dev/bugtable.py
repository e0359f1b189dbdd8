#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- bugs -->", "| bug | what it breaks | needs |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d[:-1]), m["what_it_breaks"], m["needs"]))
rows.append("<!-- /bugs -->")
p = V + "/DESIGN.md"
s = open(p).read()
s = s.replace("BUGTABLE", "<!-- bugs -->\n<!-- /bugs -->")
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
