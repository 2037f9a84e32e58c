#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["needs"]))
print("| check | catches (needs) |\n|---|---|")
for p in sorted(by):
    print("| %s | %s |" % (p, "; ".join("%s (%s)" % (i[4:], n) for i, n in by[p])))
