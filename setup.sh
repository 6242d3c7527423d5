#!/bin/bash
# Builds the checker and, for C25 and C26, what those checks would otherwise build on their first run.
cd "$(dirname "$0")" || exit 2
export MC_ROOT="$PWD"
./build.sh || exit 2
./mc/target/release/mc PREPARE >/dev/null 2>&1
exit 0
