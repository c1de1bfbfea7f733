#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (run by hand after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from properties import PROPS, HOOKS, NOTES
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        over, text = p["over"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": over, "text": text}, "why_tests_cant": p["why"],
            "anchors": p["anchors"]}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        if "na" in p:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": HOOKS, "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for l in open(os.path.join(root, "properties.jsonl")):
    jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
print(len(checks), "checks,", len(na), "not claimed")
