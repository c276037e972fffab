#!/bin/bash
# usage: seedtests.sh [seeded id ...]   Runs the existing tests with each planted change applied to /repo.
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
out=$(mktemp /tmp/seedtests.XXXXXX)
trap 'git -C /repo checkout -q -- .; rm -f "$out"' EXIT
cd /verif/seeded || exit 2
for id in ${@:-*}; do
    git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: build fails"
    bash /opt/vp/test.sh "$out" >/dev/null 2>&1
    python3 - "$id" "$out" <<'P'
import json, sys
b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
o = set(json.load(open(sys.argv[2]))["passed"])
print(sys.argv[1], "ok" if b <= o else f"BROKEN {sorted(b - o)[:3]}")
P
    git -C /repo checkout -q -- .
done
