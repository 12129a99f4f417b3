"""Rewrites the table of planted bugs in DESIGN.md."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m.get("caught_by", m["property"]), m["what_it_breaks"], m["needs"]))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(SEEDTABLE\n|\| bug \| caught by.*?)(\n\n|\Z)", "\n".join(rows).replace("\\", "\\\\") + "\n", s, flags=re.S)
open(p, "w").write(s)
