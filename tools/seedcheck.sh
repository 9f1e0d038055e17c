#!/bin/bash
# seedcheck.sh ID... : run the check of each planted bug's property against a scratch copy of the sources with the bug applied
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  D=$(mktemp -d /tmp/sc.XXXXXX); mkdir -p $D/packages
  for q in /repo/packages/*; do mkdir -p $D/packages/$(basename $q); (cd /repo && git archive HEAD packages/$(basename $q)/src packages/$(basename $q)/package.json) | tar x -C $D; done
  ln -s /repo/node_modules $D/node_modules
  (cd $D && patch -s -p1 < $d/patch.diff) || { echo "$i: patch failed"; continue; }
  s=$(date +%s); out=$(cd /verif && VERIF_REPO=$D timeout 900 python3 check.py ${P:-$p} $OPTS 2>&1); rc=$?
  rm -rf "$D"
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E 'VIOLATION' | head -2)"
done
