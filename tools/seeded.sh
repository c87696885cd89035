#!/bin/bash
# seeded.sh [ids...]: applies each planted change to /repo, runs the check of its property, undoes it.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  for q in $p $ALSO; do
    out=$(VERIF_SEED=1 bash check.sh $q quick 2>&1); rc=$?
    echo "$d $q rc=$rc $(echo "$out" | grep -E '^violation|error' | head -1 | cut -c1-200)"
  done
  git -C /repo checkout -q -- .
done
