#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
k = t.find("TABLE\n") if "TABLE\n" in t else t.index("| check | planted")
by = {}
for s in sorted(os.listdir(V + "/seeded")):
    by.setdefault(json.load(open("%s/seeded/%s/meta.json" % (V, s)))["property"], []).append(s[4:])
rows = ["| check | planted changes of its property, all reported by it (quick tier, seed 1) |", "|---|---|"]
rows += ["| %s | %s |" % (c, ", ".join(x)) for c, x in sorted(by.items())]
open(p, "w").write(t[:k] + "\n".join(rows) + "\n")
