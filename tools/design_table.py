#!/usr/bin/env python3
"""rewrites the table between the markers of DESIGN.md from evidence/*.json (run all checks first)"""
import json, glob
rows = ["| property | functions under contract | obligations (discharged) | back ends, solver time | wall |", "|---|---|---|---|---|"]
for f in sorted(glob.glob("/verif/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    be = ", ".join("%s %.1f s" % (k, (v.get("solver_ms") or 0) / 1000) for k, v in c.get("back_ends", {}).items())
    rows.append("| %s | %d | %s (%s) | %s | %.0f s |" % (e["property"], len(c.get("functions_under_contract", [])), c.get("obligations"), c.get("discharged"), be, e["wall_s"]))
p = "/verif/DESIGN.md"; s = open(p).read()
a, b = "<!-- numbers -->", "<!-- /numbers -->"
s = s.split(a)[0] + a + "\n" + "\n".join(rows) + "\n" + b + s.split(b)[1]
open(p, "w").write(s)
