#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed properties.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {}
exec(open(os.path.join(here, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in ids:
    if p in CLAIMS:
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
            "technique": TECH, "level": "proof", "level_note": CLAIMS[p]})
    else:
        na.append({"property": p, "reason": NA[p]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
