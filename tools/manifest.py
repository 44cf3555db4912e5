#!/usr/bin/env python3
"""Rewrite MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(d + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/build.py ser sermark serthr par parfast", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier=quick" % i,
                            "thorough_cmd": "python3 tools/check.py %s --tier=thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"],
                            "level": c.get("level", "model_checking"), "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet; nothing is claimed")})
assert set(CHECKS) <= set(ids)
m["notes"] = "No hooks are compiled into /repo; harnesses use the public API and stand-ins for MPI, METIS and Zoltan (simmpi/)."
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
