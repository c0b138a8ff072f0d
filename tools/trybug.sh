#!/bin/bash
# trybug.sh ID [seconds]: run the property's quick check against one planted change, then undo it
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
git -C /repo apply $D/patch.diff || exit 1
[ -n "$2" ] && export SIM_BUDGET=$2
python3 /verif/tools/check.py $P quick | tail -3 | cut -c1-300; rc=${PIPESTATUS[0]}; git -C /repo checkout -- .; echo "$1 ($P): rc $rc"
