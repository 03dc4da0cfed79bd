#!/bin/bash
# trybug.sh ID [check...]: validate a planted bug in /verif/seeded/ID (demo clean/patched, stable tests), run checks, undo
# NOTEST=1 skips the stable tests
set -u
ID=$1; shift
D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
W=$(mktemp -d /tmp/seedXXXX); cp -r $D $W/b; rm -f $W/b/*.diff $W/b/meta.json
if [ -z "${NODEMO:-}" ]; then
bash /opt/vp/build.sh >/dev/null
(cd /repo && timeout 300 bash $W/b/demo.sh >$W/o 2>&1); echo "demo clean rc=$? (want 0)"
fi
git -C /repo apply $D/patch.diff || exit 3
if [ -z "${NOTEST:-}" ]; then
bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1
python3 - $W/t.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open(sys.argv[1]))['passed'])
m=b-t; print("stable tests missing:",len(m),sorted(m)[:6])
P
else [ -z "${NODEMO:-}" ] && bash /opt/vp/build.sh | grep -v ok; fi
if [ -z "${NODEMO:-}" ]; then
(cd /repo && timeout 300 bash $W/b/demo.sh >$W/o 2>&1); echo "demo patched rc=$? (want nonzero)"; tail -2 $W/o
fi
for c in ${@:-$P}; do (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $c > $W/c 2>&1); echo "check $c rc=$?"; grep -E "VIOLATION|failed obl|discharged" $W/c | head -6; done
rm -rf $W
