#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"]))
d = open(HERE + "/DESIGN.md").read()
head = d.split("<!-- bugs -->")[0]
open(HERE + "/DESIGN.md", "w").write(head + "<!-- bugs -->\n\n| bug | needs | breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n")
