#!/bin/bash
# runseeds.sh [seed ...]: apply each planted change to /repo in turn, run its property's quick check, undo it
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$d/patch.diff" || { echo "$d NOAPPLY"; continue; }
  out=$(VERIF_TIER=quick timeout 900 python3 check.py "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c VIOLATION <<<"$out") $(grep -v VIOLATION <<<"$out" | head -1 | cut -c1-160)"
done
