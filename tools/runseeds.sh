#!/bin/bash
# runs the quick check of each planted bug's property against /repo with the bug applied
cd /verif
ids=${@:-$(ls seeded)}
for id in $ids; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t=$(date +%s)
  bash check.sh $prop quick >/tmp/seedrun.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(( $(date +%s) - t ))s $(grep -c '^VIOLATION' /tmp/seedrun.log) $(grep -m1 '::' /tmp/seedrun.log | cut -c1-120)"
done
