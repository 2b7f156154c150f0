#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
from props import PROPS, PENDING
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
TECH = "contract-based deductive verification (Verus) of functions extracted from /repo on every run; failed obligations replayed on the real crate"
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [],
    "not_applicable": [],
}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": c.get("technique", TECH),
            "level": c.get("level", "proof"),
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING.get(i, "contracts not built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
