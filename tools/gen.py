#!/usr/bin/env python3
"""Writes properties.jsonl, checks.conf and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_CLAIMED, NOTES, HOOKS

with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS + NOT_CLAIMED:
        assert len(p["title"]) <= 80, p["title"]
        o = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(o) + "\n")

with open(f"{root}/checks.conf", "w") as f:
    f.write("# written by tools/gen.py\ndeclare -A CRATE_OF=(\n")
    for p in PROPS:
        f.write(f"  [{p['id']}]={p['crate']}\n")
    f.write(")\n")

checks = [{
    "property": p["id"],
    "quick_cmd": f"./check.sh {p['id']} quick",
    "thorough_cmd": f"./check.sh {p['id']} thorough",
    "technique": p["technique"],
    "level": "model_checking",
    "level_note": p["level_note"],
    "evidence_file": f"evidence/{p['id']}.json",
} for p in PROPS]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": HOOKS,
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_CLAIMED],
    "notes": NOTES,
}
with open(f"{root}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
