#!/usr/bin/env python3
# puts the table of planted bugs into DESIGN.md
import json, glob, re, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = ["| bug | property (check that catches it) | breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    e = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[1], m["property"], e(m["what_it_breaks"]), e(m["needs"])))
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
d = open("DESIGN.md").read()
if "SEEDTABLE" in d:
    d = d.replace("SEEDTABLE", t)
else:
    d = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, d, flags=re.S)
open("DESIGN.md", "w").write(d)
