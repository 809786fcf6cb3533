#!/bin/bash
# apply every planted bug to a copy of /repo and run its check there; prints caught / MISSED
# usage: runseeds.sh [id ...]
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=/tmp/rs_$d; rm -rf "$w"; cp -a /repo "$w"; git -C "$w" apply "$PWD/seeded/$d/patch.diff"
  o=$(VERIF_REPO=$w VERIF_EVIDENCE=$w VERIF_BUDGET=${B:-15} python3-vt check.py $p 2>&1 | grep -a "^VIOLATION" | tail -1)
  echo "$d ${o:-MISSED}"
  rm -rf "$w"
done
