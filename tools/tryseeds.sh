#!/bin/bash
# tryseeds.sh [ID...]: run each planted bug's own check on a patched clone of /repo
cd /verif/seeded
for id in ${@:-*}; do
  [ -f $id/meta.json ] || continue
  w=/tmp/tryseed-$id; rm -rf "$w"; git clone -q /repo $w; cp /repo/Cargo.lock $w/ 2>/dev/null
  git -C $w apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  VERIF_REPO=$w python3 /verif/check.py $prop > /tmp/tryseed-$id.log 2>&1; rc=$?
  echo "$id $prop rc=$rc $(grep -c VIOLATION /tmp/tryseed-$id.log) $(tail -1 /tmp/tryseed-$id.log | cut -c1-150)"
  rm -rf "$w"
done
