#!/bin/bash
# usage: tryseed.sh SEED [CHECK...]: applies a planted bug to /repo, runs the checks (default: its property's), undoes it
s=$1; shift
p=/verif/seeded/$s/patch.diff
[ $# -eq 0 ] && set -- $(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
git -C /repo apply $p || exit 9
for c in "$@"; do
  out=$(cd /verif && timeout 900 ./check $c --tier quick 2>&1); rc=$?
  echo "$s $c rc=$rc $(echo "$out" | grep -c VIOLATION) $(echo "$out" | head -1 | cut -c1-110)"
done
git -C /repo checkout -q -- .
