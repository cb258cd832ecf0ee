#!/bin/bash
# seedverify.sh ID... : in a scratch copy of /repo bind-mounted over /repo in a private mount namespace,
# confirm each planted bug: demo passes before, applies, builds, stable tests pass, demo fails after.
[ "$INNER" ] || { W=$(mktemp -d /tmp/sv.XXXX); cp -a /repo "$W/repo"; cp -a /opt/vp "$W/vp"; INNER=1 W=$W unshare -Urm "$0" "$@"; rc=$?; rm -r "$W"; exit $rc; }
mount --bind "$W/repo" /repo || exit 9; mount --bind "$W/vp" /opt/vp || exit 9
cd /repo && git checkout -q -- . 
bash /opt/vp/build.sh >"$W/log" 2>&1 || { tail -5 "$W/log"; echo base build failed; exit 1; }
cp -a "$W/repo" "$W/clean"
V=/verif/seeded
# demos on the unchanged tree
for id in "$@"; do ( bash "$V/$id/demo.sh" >"$W/$id.base" 2>&1; echo $? >"$W/$id.rc" ) & while [ $(jobs -r | wc -l) -ge 8 ]; do sleep 0.2; done; done; wait
for id in "$@"; do
  r="$id base=$(cat $W/$id.rc)"; [ "$(cat $W/$id.rc)" = 0 ] || r="$r [$(tail -c 200 $W/$id.base)]"
  git apply "$V/$id/patch.diff" || { echo "$r APPLY-FAILED"; continue; }
  if bash /opt/vp/build.sh >"$W/log" 2>&1; then
    bash /opt/vp/test.sh "$W/out.json" >"$W/tlog" 2>&1
    t=$(python3 - "$W/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o.get('passed',[])); s=set(b['stable'])
print('tests=%d/%d'%(len(p&s),len(s)))
P
)
    bash "$V/$id/demo.sh" >"$W/d" 2>&1; r="$r $t patched=$? [$(tail -c 150 $W/d)]"
  else r="$r BUILD-FAILED $(grep -m2 error: $W/log)"; fi
  git checkout -q -- .; echo "$r"
done
