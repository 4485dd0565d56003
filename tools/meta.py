#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (committed output)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
lines, checks = [], []
for p in PROPS + NA:
    d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
    assert len(d["title"]) <= 80, (p["id"], len(d["title"]))
    lines.append(json.dumps(d, ensure_ascii=False))
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.sh %s" % p["id"],
        "thorough_cmd": "./run.sh %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["level_note"],
    })
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "All checks are one Go static analyser (checker/) over the type-checked SSA of /repo; run.sh <ID> re-reads /repo on every run. No hooks in /repo.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
for s in ("PROPERTIES", "MANIFEST"):
    pass
print(len(PROPS), "claimed,", len(NA), "not applicable")
