#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json (a tool for the author, no check uses it)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "S08": "missed at first: the instances were not siblings, and what a step left was looked at right away",
    "S09": "missed at first: the rates were always fast",
    "S10": "missed at first: no rods without length were generated",
    "S12": "missed at first: no type name was contained in another",
    "S20": "missed at first: all the tables started at the origin",
    "S21": "missed at first: the wrong sequences were always longer",
    "S22": "missed at first: the components were never equal",
    "S23": "missed at first: the requested steps were never slightly longer than the internal ones",
    "S15": "missed at first: the output instants never fell exactly on a step",
}
extra = os.path.join(V, "seeded", "notes.json")
if os.path.exists(extra):
    NOTE.update(json.load(open(extra)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
h = "## Planted bugs (`seeded/`) and the checks that catch them\n"
i = s.index(h) + len(h)
j = s.find("\n## ", i)
rest = s[j:] if j >= 0 else ""
t = "\n| seed | property | needs | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(V, "seeded", "S*", "meta.json"))):
    k = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    miss = NOTE.get(n, "")
    by = k["property"] if not miss.startswith("NOT CAUGHT") else "-"
    t += "| %s | %s | %s | %s%s |\n" % (n, k["property"], k["needs"], by, " (%s)" % miss if miss else "")
open(p, "w").write(s[:i] + t + rest)
