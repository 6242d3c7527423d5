#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds the checker from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export MC_ROOT="$PWD"
tier="${2:-${VERIF_TIER:-quick}}"
./build.sh || { echo "build of the checker failed" >&2; exit 2; }
exec ./mc/target/release/mc "$1" "$tier"
