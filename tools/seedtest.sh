#!/bin/bash
# seedtest.sh ID [PROP...]: tries the planted bug seeded/ID in a scratch copy bound over /repo:
# builds, tests, demo with and without it, and the checks (its own property's, or the ones named).
id=$1; shift
[ -n "$IN_NS" ] || {
	W=/tmp/st/$id; mkdir -p $W; rm -rf -- "$W"; mkdir -p $W/verif $W/demo
	cp -a /repo $W/repo; git -C $W/repo checkout -q -- .
	(cd /verif && tar c --exclude=seeded --exclude=build --exclude=replays . ) | tar x -C $W/verif; mkdir -p $W/verif/build $W/verif/replays
	cp -a /verif/seeded/$id $W/demo/d
	cp /verif/seeded/$id/patch.diff $W/p.diff
	rm -f $W/demo/d/*.diff
	P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
	IN_NS=1 unshare -Urm bash $0 $id $P > $W/log 2>&1
	grep '^==' $W/log | sed "s/^==/$id:/"
	cp $W/log /tmp/st/$id.log; rm -rf -- "$W"; exit
}
W=/tmp/st/$id
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "== base build failed"
timeout 300 bash $W/demo/d/demo.sh && echo "== demo on unchanged: ok (0)" || echo "== DEMO FAILS ON UNCHANGED"
fi
git apply $W/p.diff || { echo "== PATCH DOES NOT APPLY"; exit; }
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh || { echo "== BUILD FAILED"; exit; }
bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
python3 -c "
import json;d=json.load(open('$W/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('== tests: stable missing', [t for t in b['stable'] if t not in d['passed']])"
timeout 300 bash $W/demo/d/demo.sh && echo "== DEMO PASSES WITH PATCH" || echo "== demo with patch: fails as it should"
fi
cd /verif
for p in "$@"; do
	VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check $p quick > $W/c.log 2>&1; rc=$?
	cat $W/c.log; echo "== check $p: rc=$rc $(grep -m1 VIOLATION $W/c.log)"
done
