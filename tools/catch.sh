#!/bin/bash
# catch.sh ID...: apply each seeded bug, run the property's check, undo
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  python3 check.py $p > /tmp/catch-$id.txt 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/catch-$id.txt) :: $(grep violated /tmp/catch-$id.txt | head -1 | cut -c1-150)"
done
