#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in registry_data.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry_data import PROPS, NA, HOOKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
man = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
if HOOKS:
    man["hooks"] = HOOKS
for p in PROPS:
    if p["id"] in NA:
        man["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 checks/%s.py" % p["id"],
        "thorough_cmd": "env VERIF_TIER=thorough python3 checks/%s.py" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
    })
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
