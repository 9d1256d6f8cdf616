#!/bin/bash
# Applies each seeded change (or those named) to /repo in turn, runs the check of its property, and restores /repo.
cd /verif
for d in ${@:-seeded/*}; do
  d=seeded/$(basename "$d")
  p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
  git -C /repo apply "/verif/$d/patch.diff" || { echo "$d does not apply"; continue; }
  out=$(python3 check.py "$p" 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$(basename "$d") $p rc=$rc obligations=$(grep -c '^failed obligation' <<<"$out") $(grep '^VIOLATION' <<<"$out" | sed 's/.*json//') | $(grep '^failed obligation' <<<"$out" | head -1) | $(grep '^failing input' <<<"$out" | head -c 160)"
done
