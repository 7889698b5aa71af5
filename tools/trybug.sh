#!/bin/bash
# trybug.sh <id>...: apply each planted bug to /repo, run its property's check, undo.
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  ( cd /verif && timeout 900 python3 check.py ${P:-$p} > /tmp/trybug.log 2>&1 ); c=$?
  git -C /repo checkout -q -- .
  echo "$id ${P:-$p}: exit $c $(grep -c '^VIOLATION' /tmp/trybug.log) $(grep -m1 VIOLATING /tmp/trybug.log | cut -c1-220) $(grep -m1 -E 'ERROR|Error' /tmp/trybug.log | cut -c1-200)"
done
