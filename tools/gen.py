#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks/registry.json."""

import json
from pathlib import Path

from props import NOT_APPLICABLE, PROPS

ROOT = Path(__file__).resolve().parent.parent
registry = json.loads((ROOT / "checks/registry.json").read_text())

lines, checks, na = [], [], []
for p in PROPS:
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["tests"],
        "anchors": {
            "files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
            "observe_at": p["observe"],
            "hook_needed": None,
        },
    }))
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
        continue
    if p["id"] not in registry:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']} --tier quick",
        "thorough_cmd": f"./check {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p.get("technique", "symbolic execution of the real modules, path conditions and assertions decided by Z3, "
                                        "counterexamples replayed on the unmodified code"),
        "level": "model_checking",
        "level_note": p["level_note"],
    })

(ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "./setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check executes the modules under /repo symbolically (vx/), from the source as it is at the time of the "
             "run; bounds are in checks/*.py, DESIGN.md and the evidence files. No hooks in /repo.",
}, indent=1) + "\n")
