#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import jobs, explain
NA = json.load(open(os.path.join(R, "tools", "not_applicable.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
M = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    if i in jobs.TABLE and i not in NA:
        x = explain.E[i]
        M["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": x["technique"], "level": "other",
            "level_note": x["level_note"]})
    else:
        M["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(M, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(M["checks"]), "checks")
