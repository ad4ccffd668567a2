#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from cones import CONES
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    c = CONES[p["id"]]
    if c.get("na"):
        continue
    checks.append({
        "property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": "contract-based deductive verification (Verus contracts on functions extracted from /repo on every run)",
        "level": c.get("level", "proof"), "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": CONES[p["id"]]["na"]} for p in props if CONES[p["id"]].get("na")],
     "notes": "No hooks in /repo: contracts live in /verif/contracts and are merged into the mechanically extracted source on every run. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
