#!/bin/bash
# tools/tryseed.sh [id ...]: run each planted bug's property check on a scratch copy with the bug applied
cd /verif
ids=${@:-$(ls seeded)}
for s in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  w=/tmp/try_$s; rm -rf "$w"; cp -a /repo "$w"
  git -C $w apply /verif/seeded/$s/patch.diff || { echo "$s DOES NOT APPLY"; continue; }
  t=$(date +%s)
  o=$(PYVC_REPO=$w VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p 2>&1); rc=$?
  echo "$s $p rc=$rc $(( $(date +%s) - t ))s $(echo "$o" | grep -c VIOLATION) $(echo "$o" | grep 'contract ' | head -3 | tr '\n' ';') $(echo "$o" | grep VIOLATION | head -1 | grep -o no-failing-input-found)"
  rm -rf "$w"
done
