#!/bin/bash
# tools/trybugs.sh [ID...]: runs the quick check of each planted bug against it.
cd /verif
for id in ${@:-$(ls seeded)}; do
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  VERIF_EVIDENCE=/tmp/ev timeout 900 ./bin/gosym check $p ${TIER:-quick} >/tmp/try_$id.txt 2>&1; rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -c "^VIOLATION property=$p " /tmp/try_$id.txt)
  r=MISSED; [ $rc = 1 ] && [ $v -gt 0 ] && r=CAUGHT
  echo "$id $r rc=$rc $(( $(date +%s) - s ))s"
done
