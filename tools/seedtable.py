#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json (development aid; run by hand)."""
import glob, json, os, re
rows = ["<!-- seeded -->", "| planted bug | check that reports it | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"]))
rows.append("<!-- /seeded -->")
s = open("/verif/DESIGN.md").read()
t = "\n".join(rows)
s = s.replace("@@SEEDED@@", t) if "@@SEEDED@@" in s else re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: t, s, flags=re.S)
open("/verif/DESIGN.md", "w").write(s)
