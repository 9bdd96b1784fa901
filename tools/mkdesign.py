#!/usr/bin/env python3
"""Refreshes the tables of DESIGN.md: repaired defects, planted bugs and what catches them (tools/caught.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixes = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(V + "/known_findings.jsonl"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        fixes.append("| %s | %s | %s |" % m.groups())
caught = json.load(open(V + "/tools/caught.json"))
seeded = ["| bug | breaks | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    seeded.append("| `%s` | %s: %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), m["needs"].replace("|", "\\|").replace("\n", " "), caught.get(i, "?")))
s = open(V + "/DESIGN.md").read()
for name, rows in ("fixes", fixes), ("seeded", seeded):
    s = re.sub(r"<!-- %s -->.*?<!-- end -->" % name, lambda m: "<!-- %s -->\n%s\n<!-- end -->" % (name, "\n".join(rows)), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
