#!/bin/bash
# dev tool: run the check of each planted change (or those named) against a patched clone
for id in ${@:-$(ls /verif/seeded)}; do
  d=/verif/seeded/$id; r=/tmp/sr-$id; rm -rf /tmp/sr-$id; git clone -q /repo $r; git -C $r apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s); VC_REPO=$r /verif/check $p > /tmp/sr-$id.out 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c UNDISCH /tmp/sr-$id.out) undischarged; $(grep VIOLATION /tmp/sr-$id.out | grep -q no-failing && echo no-input || echo input) $(grep FOUND /tmp/sr-$id.out | cut -c1-150)"
  rm -rf /tmp/sr-$id
done
