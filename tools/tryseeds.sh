#!/bin/bash
# Runs the check of each planted bug's property (or the given ones) against a scratch copy with the bug applied.
# usage: tools/tryseeds.sh [ID ...]      (ALL=1: every claimed check)
cd /verif
mkdir -p /tmp/trywork
ids=${@:-$(ls seeded)}
for i in $ids; do
  rsync -a --delete --exclude target /repo/ /tmp/trywork/repo/ 2>/dev/null || { rm -rf /tmp/trywork/repo; mkdir /tmp/trywork/repo; (cd /repo && cp -a $(ls -A | grep -v '^target$') /tmp/trywork/repo/); }
  git -C /tmp/trywork/repo checkout -q -- . ; git -C /tmp/trywork/repo apply /verif/seeded/$i/patch.diff || { echo "$i APPLY FAILED"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  ps=$p
  [ -n "$ALL" ] && ps=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))")
  for q in $ps; do
    NMEA_REPO=/tmp/trywork/repo python3 -m sa.run $q > /tmp/trywork/out.$i.$q 2>&1; rc=$?
    if [ $rc = 1 ] || [ "$q" = "$p" ]; then echo "$i $p: check $q rc=$rc $(grep -m1 -E ' / ' /tmp/trywork/out.$i.$q | cut -c1-200)"; fi
  done
done
