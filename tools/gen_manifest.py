#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the SSA form (no execution)"
MERGE = ("Decides the property for arbitrary class names, property names and any number of other classes around the distinguished ones, on every path of the "
         "current source; relationships among distinguished classes are enumerated as listed in the evidence. Trusted: models of the standard library, "
         "that keys built by concatenating a property name and a circumstance do not collide, hash maps walked in ascending and descending order (all orders in thorough where feasible).")
CLAIMS = json.load(open(os.path.join(here, "tools", "claims.json")))
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": c.get("technique", AI), "level": "other",
                       "level_note": c.get("note", "@merge").replace("@merge", MERGE)})
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are one static analyzer (analyzer/, Go, x/tools go/ssa) run on /repo's current source; nothing of the repository is executed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
