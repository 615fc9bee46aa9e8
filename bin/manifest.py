#!/usr/bin/env python3
"""Regenerates MANIFEST.json from bin/props.json and properties.jsonl (committed; run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/bin/props.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
drivers = []
for p in cfg.values():
    for d in p["drivers"]:
        if d not in drivers:
            drivers.append(d)
na = json.load(open(V + "/bin/not_applicable.json"))
m = {"version": 1, "setup_cmd": "bin/build.sh " + " ".join(drivers), "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        m["checks"].append({"property": i, "quick_cmd": "bin/check.py %s quick" % i, "thorough_cmd": "bin/check.py %s thorough" % i,
                            "technique": c["technique"], "level": "model_checking", "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": na[i]})
m["notes"] = "bin/check.py builds libdynd (AddressSanitizer) from /repo's working tree and the property's drivers, explores, replays failures before reporting, and compares them with KNOWN_FINDINGS.txt."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
