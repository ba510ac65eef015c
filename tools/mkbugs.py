#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = "| bug | property | what breaks |\n|---|---|---|\n"
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    rows += "| %s | %s | %s |\n" % (d.split("/")[1], m["property"], m["what_it_breaks"])
s = open("DESIGN.md").read()
s = re.sub(r"\| bug \| property \| what breaks \|\n\|---\|---\|---\|\n(\|.*\n)*", lambda _: rows, s)
open("DESIGN.md", "w").write(s)
