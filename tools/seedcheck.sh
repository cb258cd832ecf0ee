#!/bin/bash
# seedcheck.sh ID... : run the property's quick check with each planted bug applied to a private copy of /repo
[ "$INNER" ] || { W=$(mktemp -d /tmp/sk.XXXX); cp -a /repo "$W/repo"; INNER=1 W=$W unshare -Urm "$0" "$@"; rc=$?; rm -r "$W"; exit $rc; }
mount --bind "$W/repo" /repo || exit 9
cd /repo; git checkout -q -- .
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s); VERIF_TIER=quick timeout 900 python3 /verif/check.py $p quick >/tmp/sc.$id 2>&1; rc=$?
  git checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/sc.$id | cut -c1-120)"
done
