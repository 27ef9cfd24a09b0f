#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
mark = "## Planted bugs\n"
late = json.load(open(V + "/tools/strengthened.json"))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), late.get(i, "")))
s = s[:s.index(mark)] if mark in s else s
s += mark + """
Each was written from the text of the property and the code, confirmed with `tools/plant.py --confirm`, and run against
the quick check of its property with `tools/plant.py --run`: all of them are caught by it (exit 1).  The last
column says what was strengthened for those that the check of the time missed.

| bug | caught by | needs | was missed until |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)
