#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.json (the hand-kept source)."""
import json
P = json.load(open("props.json"))
with open("properties.jsonl", "w") as f:
    for p in P["properties"]:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": P["setup_cmd"], "checks": [], "not_applicable": []}
for p in P["properties"]:
    if p.get("check"):
        c = p["check"]
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick", "thorough_cmd": f"python3 run.py {p['id']} thorough",
                            "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
if P.get("notes"): m["notes"] = P["notes"]
json.dump(m, open("MANIFEST.json", "w"), indent=1)
