#!/bin/bash
# usage: trycopy.sh <seeded id> [property ...]   Like trybug.sh, on a scratch copy of /repo and without the test suite.
d=/verif/seeded/$1; shift
[ -f "$d/patch.diff" ] || exit 2
prop=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
tmp=$(mktemp -d /tmp/trycopy.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/repo" && cp -r /repo/dissect /repo/pyproject.toml "$tmp/repo/"
export PYTHONDONTWRITEBYTECODE=1
(cd "$tmp/repo" && PYTHONPATH="$tmp/repo" bash "$d/demo.sh" >"$tmp/out" 2>&1); r0=$?; [ $r0 = 0 ] || tail -3 "$tmp/out"
(cd "$tmp/repo" && patch -s -p1 < "$d/patch.diff") || exit 2
(cd "$tmp/repo" && PYTHONPATH="$tmp/repo" timeout 300 bash "$d/demo.sh" >"$tmp/out" 2>&1); r1=$?
echo "$(basename $d): demo clean $r0 patched $r1 $(tail -1 "$tmp/out" | cut -c1-80)"
for p in ${@:-$prop}; do (cd /verif && VX_EVIDENCE="$tmp/ev" VX_REPO="$tmp/repo" timeout 900 ./check $p | grep -E "VIOLATION|exit=|job " | cut -c1-200); done
