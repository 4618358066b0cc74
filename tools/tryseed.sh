#!/bin/bash
# tryseed.sh ID... : apply each planted change to /repo, run the check of its property, undo. Development aid.
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || continue
  t0=$SECONDS; timeout 900 /verif/check $p >/tmp/w/try.$i.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $((SECONDS-t0))s $(grep -a VIOLATION /tmp/w/try.$i.log | head -1)"
done
