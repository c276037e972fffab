#!/bin/bash
# usage: trybug.sh <seeded id> [property ...]   Applies a planted change to /repo, runs tests, demo and checks, undoes it.
d=/verif/seeded/$1; shift
[ -f "$d/patch.diff" ] || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
prop=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
(cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash "$d/demo.sh" >/tmp/demo.out 2>&1); echo "demo clean: $? (want 0)"
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/trybug.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/trybug.json'))['passed'])
print("tests:", "ok" if b <= o else f"BROKEN {sorted(b-o)[:3]}")
P
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo.out 2>&1); echo "demo patched: $? (want nonzero)"; tail -2 /tmp/demo.out
for p in ${@:-$prop}; do (cd /verif && timeout 900 ./check $p | grep -E "VIOLATION|exit=|job " | cut -c1-200); done
