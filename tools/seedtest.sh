#!/bin/bash
# seedtest.sh ID... : in /repo, confirm that the seed passes the tests, that its demo separates, and which checks catch it
for ID in "$@"; do
  S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /repo
  if [ -z "$NODEMO" ]; then bash $S/demo.sh >/tmp/seed-$ID-clean.log 2>&1; C=$?; fi
  git apply $S/patch.diff || { echo "$ID: patch does not apply"; continue; }
  if [ -z "$NODEMO" ]; then bash $S/demo.sh >/tmp/seed-$ID-pat.log 2>&1; B=$?; fi
  if [ -z "$NOTEST" ]; then T=$(bash /verif/tools/rt.sh 2>&1 | tail -1); fi
  K=""
  for c in ${CHECKS:-$P}; do bash /verif/run.sh $c quick >/tmp/seed-$ID-$c.log 2>&1; K="$K $c:$?"; done
  git checkout -q -- .
  echo "$ID prop=$P demo clean=$C patched=$B tests=[$T] checks:$K"
done
