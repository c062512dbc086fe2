#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and the rule registry"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, "engine"), os.path.join(H, "tools")]
from props import PROPS, NA
from rules.registry import PROPS as REG
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": p["anchors"]}) + "\n")
m = {"version": 1, "setup_cmd": "python3 engine/facts.py /repo", "checks": [], "not_applicable": []}
for p in PROPS:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    assert p["id"] in REG, p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                        "technique": p["technique"], "level": "other", "level_note": p["note"]})
for p in NA:
    m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
for k in REG:
    assert any(p["id"] == k for p in PROPS), k
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
