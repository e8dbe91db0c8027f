#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties in CLAIMED."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing: generated Solidity ASTs, printed, lexed and matched against the token pattern of an independent reference renderer", "random compiler-shaped ASTs, whole token sequence compared; not exhaustive"),
}
exec(open(os.path.join(V, "tools", "techniques.py")).read()) if os.path.exists(os.path.join(V, "tools", "techniques.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash /verif/build.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
            "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
