#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (check.py CHECKS)."""
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check  # noqa: E402

NOTE = ("TLC generates texts from the specification's grammar, the real code reads them, and TLC replays every recorded report through the "
        "specification's state machine and compares what it prescribes with what was shown. Assurance: every explored text conforms; texts outside "
        "the families and bounds in DESIGN.md are not explored. Trusted: TLC, the CPython driver that only copies public properties into records.")
NOTES = {
    "C05": "Two builds of every text (truncate on and off) are compared by the specification module Relate. " + NOTE,
    "C07": "Each generated text is laid out in many ways; raw_code must be the canonical text computed by the specification and the whole object tree equal that of the canonical text. " + NOTE,
    "C22": "The list specification is model checked exhaustively (MCLists); scripts of list operations on real lists, exhaustive up to a length and random beyond, are replayed on it. " + NOTE,
    "C23": "Histories of parses, questions, iterations and threads switched at chosen lines; each answer must be that of a fresh process. " + NOTE,
    "C27": "Every station of the database and random codes around them. " + NOTE,
}
TECH = "TLA+ specification checked with TLC; TLC-generated cases driven into the real code and recorded traces validated against the specification with TLC"
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo. The checks import /repo's working tree directly (pure Python). seeded/ is read by no check."}
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": TECH, "level": "model_checking", "level_note": NOTES.get(i, NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
