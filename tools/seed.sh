#!/bin/bash
# seed.sh <id> [check|full]: confirm a planted bug in /repo (build, stable tests, demo both ways) and run its property's check against it.
# Works on /repo and always undoes the patch.
set -u
id=$1; mode=${2:-full}
d=$(cd "$(dirname "$0")/../seeded/$id" && pwd) || exit 2
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$mode" = full ]; then
  bash /opt/vp/build.sh >/tmp/seed-b0.log 2>&1 || { echo "base build failed"; exit 2; }
  timeout 300 bash "$d/demo.sh" >/tmp/seed-demo0.log 2>&1; r0=$?
  git apply "$d/patch.diff" || { echo "patch does not apply"; exit 2; }
  bash /opt/vp/test.sh /tmp/seed-out.json >/tmp/seed-t.log 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/seed-out.json'))['passed'])
m=[x for x in b if x not in p]; print("tests missing:",len(m),m[:4])
P
  timeout 300 bash "$d/demo.sh" >/tmp/seed-demo1.log 2>&1; r1=$?
  echo "demo base=$r0 patched=$r1"
else
  git apply "$d/patch.diff" || exit 2
fi
cd /verif && python3 check.py $prop quick >/tmp/seed-check.log 2>&1; rc=$?
echo "$id check $prop rc=$rc $(grep -c ^VIOLATION /tmp/seed-check.log) $(grep -m1 '^  ' /tmp/seed-check.log | cut -c1-200)"
