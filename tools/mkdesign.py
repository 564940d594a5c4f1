#!/usr/bin/env python3
"""Writes DESIGN.md from design.md, known-findings.jsonl and seeded/ (with tools/caught.json: what caught which)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixes = {}
for l in open(os.path.join(V, "known-findings.jsonl")):
    o = json.loads(l)
    if o["status"] == "fixed":
        fixes.setdefault((o["commit"], o["what"]), []).append(o["property"])
f = "\n".join("* %s (`%s`): %s." % (", ".join(p), c, w) for (c, w), p in fixes.items())
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
b = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    b.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "not run")))
s = open(os.path.join(V, "tools", "design.md")).read().replace("@FIXES@", f).replace("@BUGS@", "\n".join(b))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
