#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when checker/p_<id>.py exists."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
T = json.load(open(R + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(R + "/checker/p_%s.py" % i.lower()):
        t = T["claimed"][i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": t[0], "level": "other", "level_note": t[1]})
    else:
        na.append({"property": i, "reason": T["not_applicable"].get(i, "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "./facts.sh .cache/setup", "checks": checks, "not_applicable": na}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
