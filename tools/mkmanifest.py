#!/usr/bin/env python3
# writes MANIFEST.json from specs/props.json and specs/na.json
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + "/specs/props.json"))
NA = json.load(open(V + "/specs/na.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in P:
        c = P[i]
        checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c.get("technique", "contract-based deductive verification (Verus) of the functions extracted from /repo"),
                       "level": c["level"], "level_note": c["note"]})
na = [{"property": i, "reason": NA.get(i, "no check yet: contracts for these functions are not written")} for i in ids if i not in P]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Each check extracts the functions under contract from /repo's working tree on every run (tools/vx), has Verus discharge every obligation, and runs the same contracts as executable oracles on the real crates (tools/harness) to find a failing input. No hooks are needed in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
