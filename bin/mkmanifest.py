#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "checks", "notes.json")))
checks = []; na = []
for p in props:
    i = p["id"]; n = NOTES.get(i)
    if n and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick bin/check {i}", thorough_cmd=f"VERIF_TIER=thorough bin/check {i}",
                           technique=n["technique"], level="model_checking", level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=(n or {}).get("na", "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
