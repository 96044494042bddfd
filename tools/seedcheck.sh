#!/bin/bash
# runs, for each planted bug given (default all), the check of its property on a patched copy
cd /verif/seeded
for s in ${@:-*}; do
  d=$(mktemp -d /tmp/sc.XXXX); cp -a /repo $d/r
  (cd $d/r && git apply /verif/seeded/$s/patch.diff) || echo "$s DOES NOT APPLY"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  /opt/venv/bin/python -W ignore /verif/check.py --property $p --root $d/r > $d/out 2>&1; rc=$?
  echo "$s $p rc=$rc $(grep -m1 VIOLATION $d/out | cut -c1-120)"
  rm -r $d
done
