#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
p = V + "/DESIGN.md"; s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->"
if "SEEDTABLE" in s: s = s.replace("SEEDTABLE", t)
else: s = re.sub(r"<!-- seeds -->.*?<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
