#!/bin/bash
# determinism.sh [ids...]: the history hash of each of the first runs of a world
# must be the same with 1, 3 and 8 workers and in a second process.
cd "$(dirname "$0")/.." || exit 2
(cd sim && cargo build --release --offline 2>/dev/null) || exit 2
b=sim/target/release/fawkes-sim; rc=0
for id in ${@:-$($b list)}; do
  n=${N:-200}
  ref=$(FAWKES_SIM_WORKERS=1 $b trace $id $n | md5sum)
  for w in 3 8 8; do
    h=$(FAWKES_SIM_WORKERS=$w $b trace $id $n | md5sum)
    [ "$h" = "$ref" ] || { echo "$id: $w workers differ"; rc=1; }
  done
  echo "$id $n runs $ref"
done
exit $rc
