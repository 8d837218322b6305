#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import texts
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for d in props:
    i = d["id"]
    if i in texts.NA:
        na.append({"property": i, "reason": texts.NA[i]})
        continue
    checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check " + i,
                   "technique": texts.TECH[i], "level": texts.LEVEL[i], "level_note": texts.NOTE[i]})
m = {"version": 1, "setup_cmd": "bin/setup", 
     "hooks": {"guard": "stronghold_verif, kani", "enable": "RUSTFLAGS=\"--cfg stronghold_verif\" (set by bin/check for the replay layer and the Kani harnesses); cfg(kani) is set by cargo kani itself", "source_commits": ["5e90977", "d2a1f5f"]},
     "checks": checks, "not_applicable": na,
     "notes": "bin/check PROP extracts the functions under contract from /repo, runs the verifier, and evaluates the same postconditions on executions of the real crates. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
