#!/bin/bash
# runseeds.sh [ID...]: run the property's check against each planted bug in a copy of /repo (ROBPY_SRC), report caught or missed
ids="$@"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  d=$(mktemp -d /tmp/rs.XXXX); cp -a /repo $d/repo; git -C $d/repo apply /verif/seeded/$i/patch.diff || { echo "$i no apply"; continue; }
  cp -a /verif/evidence/$p.json $d/ev.json 2>/dev/null
  ROBPY_SRC=$d/repo VERIF_SEED=1 python3-vt /verif/check.py $p > $d/out 2>&1; rc=$?
  echo "$i $p rc=$rc $(grep -c '^VIOLATION' $d/out) $(grep '^VIOLATION' $d/out | grep -o 'no-failing-input-found') | $(grep -v '^VIOLATION' $d/out | head -1 | cut -c1-140)"
  cp -a $d/ev.json /verif/evidence/$p.json 2>/dev/null
  rm -rf "$d"
done
