#!/bin/bash
# development helper: try.sh ID [CHECK...]: apply a planted bug to /repo, run its check (or those named), undo it
d=/verif/seeded/$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo dirty; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for id in ${@:-$p}; do s=$(date +%s); SIM_SHRINK=${SIM_SHRINK:-10} /verif/check.sh "$id" | cut -c1-230 | tail -4; echo "$(basename $d): $id exit ${PIPESTATUS[0]} $(( $(date +%s) - s )) s"; done
git -C /repo checkout -q -- .
/verif/setup.sh > /dev/null 2>&1
