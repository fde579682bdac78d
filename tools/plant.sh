#!/bin/bash
# plant.sh ID [check...]: try the planted change seeded/ID in a scratch copy of /repo
# (bind-mounted over /repo in a private mount namespace): build, demo, stable tests, checks.
# plant.sh --sync refreshes the scratch copy.  NOTEST=1 skips the stable tests.
P=/tmp/plant
if [ "$1" = --sync ]; then
   mkdir -p $P; rm -rf $P/repo $P/vbuild; cp -a /repo $P/repo; cp -a /verif/.build $P/vbuild; exit
fi
if [ -z "$INNER" ]; then
   [ -d $P/repo ] || $0 --sync
   INNER=1 exec unshare -Urm bash -c 'mount --bind /tmp/plant/repo /repo && exec "$0" "$@"' "$0" "$@"
fi
ID=$1; shift
S=/verif/seeded/$ID
cd /repo || exit 1
git checkout -q -- . ; git fetch -q /verif/../repo 2>/dev/null
rm -rf $P/demo; cp -r $S $P/demo; rm -f $P/demo/*.diff $P/demo/meta.json
echo "== $ID"
git apply $S/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $P/build.log 2>&1 || { tail -20 $P/build.log; git checkout -q -- .; echo "DOES NOT BUILD"; exit 1; }
timeout 300 bash $P/demo/demo.sh > $P/demo.log 2>&1; r=$?
echo "demo with patch: $r (want nonzero)"; tail -3 $P/demo.log
if [ -z "$NOTEST" ]; then
   bash /opt/vp/test.sh $P/o.json > $P/test.log 2>&1
   python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=set(json.load(open('/tmp/plant/o.json'))['passed'])
bad=[x for x in b['stable'] if x not in o]
print("stable tests failing:", len(bad), bad[:6])
PY
fi
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'].lower())")
cd /verif
for c in ${@:-$PROP}; do
   VERIF_SHRINK=${VERIF_SHRINK:-5} VERIF_BUILD=$P/vbuild timeout 900 python3 checks/$c.py > $P/check-$c.log 2>&1
   echo "check $c: rc=$?"; grep -v KNOWN-FINDING $P/check-$c.log | tail -4 | cut -c1-400
done
cd /repo; git checkout -q -- .
if [ -z "$NOTEST" ]; then
   bash /opt/vp/build.sh > $P/build.log 2>&1
   timeout 300 bash $P/demo/demo.sh > $P/demo.log 2>&1; echo "demo without patch: $? (want 0)"
fi
