#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design/*.md and seeded/*/meta.json."""
import glob, json, os
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = open(os.path.join(HOME, "tools/design/00_base.md")).read()
per = "\n".join(open(f).read() for f in sorted(glob.glob(os.path.join(HOME, "tools/design/C*.md"))))
rows = ["| id | property | caught | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HOME, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m.get("caught", "?"), m["needs"]))
open(os.path.join(HOME, "DESIGN.md"), "w").write(base.replace("DESIGN_PER_PROPERTY", per).replace("DESIGN_SEEDED", "\n".join(rows)))
