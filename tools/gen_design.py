#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, the table of checks, the last evidence and the list of what caught which planted bug."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

TOP = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(TOP, "properties.jsonl"))]
secs = json.load(open(os.path.join(HERE, "seconds.json")))
rows = []
for p in props:
    c = CHECKS[p["id"]]
    rows.append("| %s | %s. %s | %s | %s |" % (p["id"], c["technique"], c["note"], c["bounds"]["quick"], secs.get(p["id"], "")))
m = {}
for l in open(os.path.join(HERE, "catch.txt")):
    bug, prop, what = l.split(None, 2)
    m.setdefault(prop, []).append("%s%s" % (bug, "" if what.strip() == "caught" else " (%s)" % what.strip()))
mat = ["| check | catches |", "|---|---|"] + ["| %s | %s |" % (k, ", ".join(sorted(v))) for k, v in sorted(m.items())]
t = open(os.path.join(HERE, "DESIGN.in.md")).read()
with open(os.path.join(TOP, "DESIGN.md"), "w") as f:
    f.write(t.replace("@TABLE@", "\n".join(rows)).replace("@MATRIX@", "\n".join(mat)))
