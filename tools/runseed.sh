#!/bin/bash
# dev: apply each planted bug to /repo, run its property's check, undo.  runseed.sh ID..
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s APPLY FAILED"; continue; }
  timeout 890 python3 tools/check.py $p > /tmp/rs.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(grep VIOLATION /tmp/rs.out | head -2 | tr '\n' ' ') $(tail -1 /tmp/rs.out | cut -c1-120)"
done
