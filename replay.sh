#!/bin/bash
# replay.sh FILE: rebuild from /repo's working tree and repeat the recorded run (prints its trace).
f=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
./setup.sh || exit 2
exec .build/target/debug/zodsim trace "$f"
