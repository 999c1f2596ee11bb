#!/bin/bash
# Development aid: turn the uncommitted change in /repo into a planted bug, or validate an existing one.
#   seed.sh new ID PROPERTY   take the working diff of /repo (demo.sh etc. must lie in seeded/ID), then validate
#   seed.sh test ID [CHECK..] validate: builds, stable tests pass, demo fails with it and passes without; run the checks
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
mode=$1 id=$2; shift 2
S=$V/seeded/$id
restore() { git -C /repo checkout -q -- . ; }
trap restore EXIT
if [ $mode = new ]; then
  git -C /repo diff > "$S/patch.diff"; restore
fi
[ -s "$S/patch.diff" ] || { echo "$id: empty patch"; exit 1; }
git -C /repo apply --check "$S/patch.diff" || { echo "$id: does not apply"; exit 1; }
git -C /repo apply "$S/patch.diff"
if ! bash /opt/vp/build.sh > /tmp/seed.build 2>&1; then echo "$id: BUILD FAILS"; tail -5 /tmp/seed.build; restore; exit 1; fi
bash /opt/vp/test.sh /tmp/seed.json > /dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed'])
print('   tests:', 'pass' if not m else 'FAIL %s'%sorted(m)[:5])
P
(cd /repo && timeout 300 bash "$S/demo.sh" > /tmp/seed.demo 2>&1); d1=$?
for c in "$@"; do
  out=$(cd $V && timeout 900 python3 run_check.py $c 2>&1); rc=$?
  echo "   check $c: rc=$rc $(echo "$out" | grep -E '^VIOLATION|^held: |^error' | tail -1 | cut -c1-120)"
done
restore
bash /opt/vp/build.sh > /tmp/seed.build 2>&1
(cd /repo && timeout 300 bash "$S/demo.sh" > /tmp/seed.demo0 2>&1); d0=$?
echo "$id: demo patched=$d1 clean=$d0"
