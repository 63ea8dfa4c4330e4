#!/bin/bash
# development helper: undo one fix commit of /repo in the working tree, run a check, restore
# reverts.sh COMMIT ID...
set -u
c=$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
git show "$c" | git apply -R --3way >/dev/null 2>&1 || git show "$c" | git apply -R || { git checkout -q -- .; git reset -q; echo "does not apply"; exit 2; }
git reset -q
for id in "$@"; do SIM_SHRINK=${SIM_SHRINK:-10} /verif/check.sh "$id" | cut -c1-250; echo "$id exit ${PIPESTATUS[0]}"; done
git checkout -q -- .
