#!/bin/bash
# check.sh ID [quick|thorough]: builds the simulator against /repo's working
# tree and runs the property's world.  Exit 0 held, 1 violation, 2 error.
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
out=$(cd sim && cargo build --release --offline 2>&1) || { echo "$out" | tail -40 >&2; echo "build of the simulator failed" >&2; exit 2; }
exec sim/target/release/fawkes-sim check "$1"
