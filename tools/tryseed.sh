#!/bin/bash
# tryseed.sh ID... : apply each seeded change to /repo, run its demo and the check of its property, undo
for s in "$@"; do
  D=/verif/seeded/$s
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /repo && bash $D/demo.sh >/tmp/tryseed.out 2>&1; base=$?
  git -C /repo apply $D/patch.diff || { echo "$s NOT-APPLICABLE"; continue; }
  bash $D/demo.sh >/tmp/tryseed.out2 2>&1; mut=$?
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py $P > /tmp/tryseed.$s.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s $P demo clean=$base mutated=$mut check=$rc $(grep -c VIOLATION /tmp/tryseed.$s.log)"
done
