#!/bin/bash
# seedtest.sh ID...: apply the planted change to /repo, build, test, run its demo and its property's check, undo
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo || exit 1
  [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  bash $d/demo.sh >/tmp/s/demo0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/s/out.json >/tmp/s/test.log 2>&1
  t=$(python3 -c "
import json;o=json.load(open('/tmp/s/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
l=b if isinstance(b,list) else b.get('stable',b.get('passed',b.get('tests')))
print('tests %d/%d'%(len([x for x in l if x in o['passed']]),len(l)))")
  bash $d/demo.sh >/tmp/s/demo1.log 2>&1; r1=$?
  cd /verif && python3 check.py $prop quick >/tmp/s/check.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop: demo clean=$r0 patched=$r1; $t; check exit=$rc $(grep -c '^VIOLATION' /tmp/s/check.log)"
  head -3 /tmp/s/check.log | cut -c1-300
done
