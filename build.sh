#!/bin/bash
# Builds the checker against /repo's current working tree (offline).
cd "$(dirname "$0")/mc" || exit 2
export RUSTFLAGS="-Awarnings"
exec cargo build --offline --release --quiet
