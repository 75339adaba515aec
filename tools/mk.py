#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from propsrc import CLAIMED, NOT_APPLICABLE, HOOKS   # noqa: E402

props = []
checks = []
na = []
for p in CLAIMED + NOT_APPLICABLE:
    props.append({k: p[k] for k in ("id", "title", "statement", "quantifier",
                                    "why_tests_cant", "anchors")})
    if "reason" in p:
        na.append({"property": p["id"], "reason": p["reason"]})
    else:
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash /verif/run.sh %s --tier quick" % p["id"],
            "thorough_cmd": "bash /verif/run.sh %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": p["level"],
            "level_note": p["level_note"]})
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(props, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "hooks": HOOKS,
       "checks": checks, "not_applicable": na,
       "notes": "Every check is a seeded deterministic simulation of the real "
                "code in /repo's working tree; see DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
