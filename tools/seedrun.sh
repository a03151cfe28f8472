#!/bin/bash
# seedrun.sh NAME...: runs the check of each seed's property on a scratch copy of /repo with the patch applied
for n in "$@"; do
  w=$(mktemp -d); git -C /repo archive HEAD | tar x -C $w; (cd $w && git init -q . && git apply /verif/seeded/$n/patch.diff)
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
  s=$(date +%s); VERIF_REPO=$w timeout 900 python3 /verif/run.py $p quick > $w/out.log 2>&1; rc=$?
  echo "$n: exit $rc $(($(date +%s)-s))s $(grep -c 'NOT DISCHARGED' $w/out.log) failed; $(grep VIOLATION $w/out.log)"; grep 'NOT DISCH' $w/out.log | head -3
  rm -rf "$w"
done
