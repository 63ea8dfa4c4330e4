#!/bin/bash
# check.sh ID: rebuild from /repo's working tree, then search. VERIF_SEED and VERIF_TIER apply.
cd "$(dirname "$0")" || exit 2
mkdir -p .build evidence replays
./setup.sh || exit 2
exec .build/target/debug/zodsim check "$1"
