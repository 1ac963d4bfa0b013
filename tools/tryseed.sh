#!/bin/bash
# tryseed.sh ID...: for each planted bug: build, repository tests, demo and the property's check with the
# change, then undo it. Prints one line per bug.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/ts.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.test 2>&1
  t=$(python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); base=base['stable']
r=json.load(open('/tmp/ts.json')); print(len(set(base)-set(r['passed'])))
P
)
  cp -r "$d" /tmp/ts.demo; (cd /repo && timeout 300 bash /tmp/ts.demo/demo.sh) >/tmp/ts.demo.out 2>&1; dm=$?
  out=$(cd /verif && timeout 900 python3 run.py "$prop" 2>&1); c=$?
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo && timeout 300 bash /tmp/ts.demo/demo.sh) >/tmp/ts.demo.out2 2>&1; dc=$?
  rm -rf /tmp/ts.demo
  echo "$id $prop build=$b tests_lost=$t demo_bug=$dm demo_clean=$dc check=$c $(echo "$out" | grep -A1 VIOLATION | tail -1 | cut -c1-150)"
done
