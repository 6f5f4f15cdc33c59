#!/bin/bash
# plant.sh ID [CHECK...]: in a scratch copy of /repo, verifies that seeded/ID builds, passes the tests and is told apart by its
# demonstration, then runs the checks named (default: its property's) against it. Uses /repo itself for the checks and restores it.
V="$(cd "$(dirname "$0")/.." && pwd)"; S="$V/seeded/$1"; id="$1"; shift
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); [ $# = 0 ] && set -- $prop
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
cd /repo
[ -n "$SKIPCLEAN" ] || { bash "$S/demo.sh" > /tmp/plant.clean 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 /tmp/plant.clean; }; }
git apply "$S/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/tmp/plant.json'));a=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in a['stable'] if t not in b['passed']]
print("tests:", "ok" if not miss else miss)
P
bash "$S/demo.sh" > /tmp/plant.bug 2>&1 && echo "demo with the change: PASSES (bad)" || { echo "demo with the change: fails, as it should"; tail -2 /tmp/plant.bug | cut -c1-300; }
for c in "$@"; do "$V/check.sh" $c > /tmp/plant.$c 2>&1; echo "check $c: exit $?; $(grep -m1 '^violated' /tmp/plant.$c | cut -c1-250)"; done
