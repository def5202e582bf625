#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (each is caught by the check of its property;
tools/runseeds.sh confirms it)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"]))
p = V + "/DESIGN.md"; s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S) if "<!-- seeds -->" in s else s
open(p, "w").write(s)
