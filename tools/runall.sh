#!/bin/bash
# Runs every quick check on the current tree: tools/runall.sh [ID...]
cd "$(dirname "$0")/.."
for i in ${@:-$(python3 -c 'import json; print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')}; do
  s=$(date +%s)
  VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 run.py $i > out/$i.log 2>&1; rc=$?
  echo "$i rc=$rc $(($(date +%s) - s))s $(tail -1 out/$i.log | cut -c1-150)"
done
