#!/bin/bash
# catch.sh ID...: applies each planted bug in /repo, runs its property's quick check, undoes it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  t0=$(date +%s)
  out=$(./check.sh ${PROP:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id exit $rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -av "^VIOLATION" | cut -c1-260 | head -${LINES_MAX:-2} | tr '\n' '|')"
done
