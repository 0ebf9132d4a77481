#!/bin/bash
# seedcheck.sh [id...]: apply each planted bug to /repo, run its property's quick check, undo.
V=/verif
cd $V
for x in ${@:-$(ls seeded)}; do id=$(basename $(ls -d seeded/$x* | head -1))
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$id $p CAUGHT: $(sed -n 3p <<<"$out" | cut -c1-150)"; else echo "$id $p MISSED rc=$rc $(tail -2 <<<"$out")"; fi
done
