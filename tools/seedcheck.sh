#!/bin/bash
# seedcheck.sh ID [notests|demo|PROPERTY...]: confirms a planted bug in a scratch copy and runs the check of its property against it
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")/.."; pwd); id=$1; shift
S=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seedw-XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/astra"; cd "$W/astra"; git checkout -q -- . 
mkdir -p "$W/place"; cp -a "$S/." "$W/place/"; rm -f "$W"/place/*.diff "$W/place/meta.json"
if [ "$1" != notests ]; then bash "$W/place/demo.sh" >"$W/clean.log" 2>&1; rc=$?; [ $rc = 0 ] || { echo "$id: DEMO FAILS ON CLEAN ($rc)"; tail -5 "$W/clean.log"; }; fi
git apply "$S/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
go build ./... || { echo "$id: DOES NOT BUILD"; exit 1; }
if [ "$1" != notests ]; then
  bash "$W/place/demo.sh" >"$W/bug.log" 2>&1; rc=$?; [ $rc != 0 ] && echo "$id: demo ok: $(tail -1 "$W/bug.log" | cut -c1-200)" || { echo "$id: DEMO PASSES WITH BUG"; tail -5 "$W/bug.log"; }
  cd "$W/astra"; go test -json -vet=off -count=1 -timeout 5m ./... >"$W/test.log" 2>"$W/test.err"
  python3 /opt/vp/results.py "$W/out.json" gojson:"$W/test.log" >/dev/null
  python3 -c "
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$W/out.json'))['passed']); m=sorted(s-p)
print('$id: tests', 'ok' if not m else 'BROKEN %d %s'%(len(m),m[:4]))"
  git checkout -q -- tests 2>/dev/null
else shift; fi
[ "$1" = demo ] && exit 0
for p in ${@:-$prop}; do
  cd "$V"; VRT_REPO="$W/astra" timeout 900 python3 harness/check.py $p >"$W/check.log" 2>&1; rc=$?
  echo "$id: $p rc=$rc $( [ $rc = 1 ] && grep -m1 '^  - ' "$W/check.log" | cut -c1-260 || tail -1 "$W/check.log" | cut -c1-260)"
done
