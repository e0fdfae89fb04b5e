#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the table of not-applicable properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "analysis"))
import run
reg = run.load()
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
TECH = "static analysis: partitioned abstract interpretation of MIR"
TECHS = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg:
        f, rule = reg[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECHS.get(i, TECH), "level": "other",
                       "level_note": "Sound for every input within the stated assumptions where the analysis decides all obligations (the evidence counts the undecided ones, none on the unchanged tree). " + rule +
                                     " Trusts rustc's MIR and the summaries of library calls in analysis/models.py."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: the static rule for it is designed in DESIGN.md but not built")})
m = {"version": 1, "setup_cmd": "tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Each check dumps rustc's MIR of /repo's current tree with driver/ (a rustc driver) and analyses it; known findings are in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
