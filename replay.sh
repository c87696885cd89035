#!/bin/bash
# replay.sh FILE: re-executes a replay file against /repo's working tree.
cd "$(dirname "$0")" || exit 2
f=$(cd "$OLDPWD" && realpath "$1") || exit 2
out=$(cd sim && cargo build --release --offline 2>&1) || { echo "$out" | tail -40 >&2; exit 2; }
exec sim/target/release/fawkes-sim replay "$f"
