#!/bin/bash
# seedtest.sh NAME...: applies, builds, runs stable tests and the demo on both trees (in /repo, undone afterwards)
cd /repo
trap 'git -C /repo checkout -q -- .' EXIT
for n in "$@"; do
  d=/verif/seeded/$n
  git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
  rm -rf /tmp/demo1; cp -r $d /tmp/demo1; rm -f /tmp/demo1/*.diff /tmp/demo1/meta.json
  timeout 300 bash /tmp/demo1/demo.sh >/tmp/demo.out 2>&1; a=$?
  if ! git apply $d/patch.diff; then echo "$n: DOES NOT APPLY"; continue; fi
  bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo "$n: build fails"; git checkout -q -- .; continue; }
  timeout 300 bash /tmp/demo1/demo.sh >/tmp/demo.out2 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
k=b if isinstance(b,list) else b.get('passed',b.get('tests',b.get('stable')))
print(len(set(k)-set(r['passed'])))")
  git checkout -q -- .
  echo "$n: clean demo=$a patched demo=$b stable tests failing=$t"
done
bash /opt/vp/build.sh >/dev/null 2>&1
