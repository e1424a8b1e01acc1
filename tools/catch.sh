#!/bin/bash
# catch.sh NAME...: runs the property's check against each seeded change (on a scratch copy of the headers)
V=$(dirname "$(dirname "$(realpath "$0")")")
for n in "${@:-$(ls $V/seeded)}"; do for m in $n; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$m/meta.json'))['property'])")
  d=$(mktemp -d)
  mkdir $d/r && cp -a /repo/include $d/r/ && (cd $d/r && git apply --unsafe-paths $V/seeded/$m/patch.diff) || echo "apply failed"
  VERIF_REPO=$d/r VERIF_EVD=$d $V/check $p > $d/out 2>&1; rc=$?
  echo "$m $p rc=$rc $(grep '^  ' $d/out | head -1 | cut -c1-150)"
  [ $rc = 2 ] && tail -3 $d/out
  rm -rf "$d"
done; done
