#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/index.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
idx = json.load(open(V + "/contracts/index.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = {}
checks, notapp = [], []
for p in props:
    i = p["id"]
    if i in idx:
        e = idx[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": e.get("technique", "contract-based deductive verification of the real sources re-instantiated with an "
                         "exact symbolic scalar: pre/postconditions per function, callees by contract, obligations discharged by "
                         "ring normal form and z3"),
            "level": e["level"],
            "level_note": e["note"],
        })
    else:
        notapp.append({"property": i, "reason": na.get(i, "the contracts of this property are not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": notapp},
          open(V + "/MANIFEST.json", "w"), indent=1)
