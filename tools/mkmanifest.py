#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the checks present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
TECH = json.load(open(R + "/tools/technique.json"))
m = {"version": 1, "setup_cmd": "python3 /verif/lib/build.py --all", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if os.path.exists(R + "/checks/%s.py" % i.lower()):
        t = TECH[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 /verif/run.py %s --quick" % i,
                            "thorough_cmd": "python3 /verif/run.py %s --thorough" % i,
                            "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": TECH.get(i, {}).get("reason", "check not built yet")})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not")
