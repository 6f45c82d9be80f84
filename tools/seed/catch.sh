#!/bin/bash
# catch.sh SEED [PROP..]: apply a planted change to /repo, run the property's check, undo
ID=$1; S=/verif/seeded/$ID; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
git -C /repo apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $P; do
  timeout 900 /verif/bin/check $p >/tmp/catch_$ID.$p.log 2>&1; rc=$?
  echo "$ID $p rc=$rc $(grep -E '^VIOLATION' /tmp/catch_$ID.$p.log) [$(tail -1 /tmp/catch_$ID.$p.log | cut -c1-10)]"
done
