#!/bin/bash
# seedtest.sh [-q] ID...: validates planted bugs in a scratch copy bound over /repo (private mount namespace):
# builds, runs the tests (not with -q), the demo on both trees and the property's check.
Q=; [ "$1" = -q ] && { Q=1; shift; }
S=/tmp/scr; mkdir -p $S
rsync -a --delete --exclude=_build /repo/ $S/ 2>/dev/null || { find $S -mindepth 1 -maxdepth 1 ! -name _build -exec rm -rf {} +; for f in $(ls -A /repo | grep -v _build); do cp -a /repo/$f $S/; done; }
[ -d $S/_build ] || cp -a /repo/_build $S/_build
for id in "$@"; do
unshare -Urm bash -s "$id" "$Q" <<'F'
id=$1; Q=$2; mount --bind /tmp/scr /repo; cd /repo; D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git checkout -q -- . ; bash $D/demo.sh >/tmp/st.$id.clean 2>&1 </dev/null; c=$?
git apply $D/patch.diff || { echo "$id: patch does not apply"; exit; }
if [ -z "$Q" ]; then
bash /opt/vp/build.sh >/tmp/st.$id.build 2>&1 </dev/null || { echo "$id: build failed"; git checkout -q -- .; exit; }
bash /opt/vp/test.sh /tmp/st.$id.json >/tmp/st.$id.test 2>&1 </dev/null
t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=json.load(open('/tmp/st.$id.json'));print(sorted(b-set(r['passed']))[:5])")
fi
bash $D/demo.sh >/tmp/st.$id.patched 2>&1 </dev/null; p=$?
mkdir -p /tmp/st.verif; cp -a /verif/. /tmp/st.verif/; mount --bind /tmp/st.verif /verif
VERIF_SEED=1 VERIF_TIER=quick python3 /verif/check.py $P >/tmp/st.$id.check 2>&1 </dev/null; k=$?
v=$(grep -c "^VIOLATION property=$P" /tmp/st.$id.check)
echo "$id: demo clean=$c patched=$p tests-broken=$t check=$k violation=$v $( [ $c = 0 ] && [ $p != 0 ] && [ "$t" = '[]' -o -n "$Q" ] && echo VALID ) $( [ $k = 1 ] && [ $v -gt 0 ] && echo CAUGHT || echo MISSED )"
git checkout -q -- .
F
done
