#!/bin/bash
# usage: catch.sh [ID...]   Applies each planted bug to /repo, runs the quick check of its property, undoes it. Prints CAUGHT/MISSED.
cd /verif
for id in "${@:-$(ls seeded)}"; do for id in $id; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t=$(date +%s); out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash check.sh $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  v=$(echo "$out" | grep -m1 "^VIOLATION property=$p")
  if [ $rc = 1 ] && [ -n "$v" ]; then echo "CAUGHT $id by $p ($(( $(date +%s)-t )) s) $(echo "$out" | grep -m1 -i 'sig' | cut -c1-160)"; else echo "MISSED $id by $p rc=$rc: $(echo "$out" | tail -2)"; fi
done; done
