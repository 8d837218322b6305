#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and the log of tools/runseeds"""
import json, glob, re, sys, os
log = {}
for l in open(sys.argv[1] if len(sys.argv) > 1 else "/tmp/runseeds.log"):
    m = re.match(r"(\S+) (C\d+) rc=(\d+) (\S+) \| (.*?) \| (.*?) \| (.*)", l)
    if m: log[m[1]] = m
rows = ["| planted change | property | needs | found by search | proof |", "|---|---|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); r = log.get(i)
    unit = re.search(r"unit (\S+)", r[6]) if r else None
    pr = "; ".join(re.sub(r"contracts/|\.vrs", "", re.sub(r"^proof ", "", x.strip())) for x in r[7].split(";") if x.strip()) if r else "not run"
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), unit[1] if unit else ("no" if r else "not run"), pr))
p = "/verif/DESIGN.md"; s = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
s = s.split(a)[0] + a + "\n" + "\n".join(rows) + "\n" + b + s.split(b)[1]
open(p, "w").write(s)
