#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
CLAIMED = json.load(open(ROOT + "/tools/claims.json"))
m = {"version": 1,
     "setup_cmd": "cargo fetch --offline --locked --manifest-path harness/Cargo.toml && cargo fetch --offline --locked --manifest-path harness_bevy/Cargo.toml",
     "checks": [], "not_applicable": []}
hooks = CLAIMED.get("_hooks")
if hooks: m["hooks"] = hooks
for p in props:
    c = CLAIMED.get(p["id"])
    if c and "technique" in c:
        m["checks"].append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough", "technique": c["technique"],
            "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": (c or {}).get("reason", "check not built yet")})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
