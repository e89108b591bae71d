#!/bin/bash
# runseed.sh ID [tier]: applies the seeded bug to /repo, runs the check of its property, undoes it.
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply $d/patch.diff || exit 1
VERIF_SEED=${VERIF_SEED:-1} /verif/bin/check ${3:-$p} ${2:-quick} > /tmp/runseed.$id 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id ${3:-$p} rc=$rc $(grep -m1 VIOLATION /tmp/runseed.$id)"; grep -m2 -A3 -i "violat" /tmp/runseed.$id | cut -c1-300 | tail -3
