#!/usr/bin/env python3
"""Adds what the evidence files say about the cost of the last runs to tools/costs.json."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
path = ROOT / "tools/costs.json"
costs = json.loads(path.read_text()) if path.exists() else {}
for f in sorted((ROOT / "evidence").glob("P*.json")):
    d = json.loads(f.read_text())
    c = d["coverage"]
    costs.setdefault(d["property"], {})[d["tier"]] = {
        "wall": round(d["wall_s"]),
        "jobs": c["jobs"],
        "paths": c["symbolic_paths"],
        "queries": c["solver_queries"],
        "solver": round(c["solver_time_s"]),
        "open": sum(c["inconclusive"].values()) + len(c["incomplete"]) + c["solver_unknown"],
    }
path.write_text(json.dumps(costs, indent=1) + "\n")
