#!/usr/bin/env python3
"""mkseed.py <spec.py>: spec defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].

Writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}; patches are made in a scratch copy of /repo."""

import json
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

SEEDED = Path("/verif/seeded")
only = set(sys.argv[2:])
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if only and s["id"] not in only:
        continue
    with tempfile.TemporaryDirectory(prefix="mkseed") as tmp:
        repo = Path(tmp) / "repo"
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("_data"))
        for f, old, new in s["edits"]:
            p = repo / f
            t = p.read_text()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", str(repo), "diff", "--", "dissect"], check=True, capture_output=True, text=True).stdout
    d = SEEDED / s["id"]
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(s["demo"].lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / "demo.sh").chmod(0o755)
    (d / "meta.json").write_text(
        json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n"
    )
    print("wrote", s["id"])
