#!/bin/bash
# Builds the simulator from the committed files and /repo's working tree. Offline.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
python3 patches/prepare.py
(cd sim && cargo build --offline --quiet 2>"../.build/cargo.log") || { grep -A12 '^error' .build/cargo.log | head -60; echo "the simulator does not build"; exit 2; }
