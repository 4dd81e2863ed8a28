#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS
NA = {}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every check drives the public API. Repairs of genuine defects are the fix: commits in /repo, recorded in known_findings.json."}
props = [json.loads(l) for l in open("properties.jsonl")]
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
