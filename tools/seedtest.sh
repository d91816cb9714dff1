#!/bin/bash
# seedtest.sh <id>...: validates planted changes in a scratch copy bound over /repo in a private mount namespace:
# applies, builds, stable tests pass, demo fails with the change and passes without it
[ -d /tmp/seedrepo/.git ] || { mkdir -p /tmp/seedrepo; cp -a /repo/. /tmp/seedrepo/; }
exec 9>/tmp/seedtest.lock; flock 9
git -C /tmp/seedrepo fetch -q /repo HEAD && git -C /tmp/seedrepo checkout -q -f FETCH_HEAD
for id in "$@"; do
unshare -m bash -s "$id" <<'X'
id=$1; S=/verif/seeded/$id
mount --bind /tmp/seedrepo /repo || exit 1
cd /repo; git checkout -q -f . ; 
log=/tmp/seed.$id.log
demo() { d=$(mktemp -d /tmp/demo.XXXXXX); cp -r $S/. $d/; rm -f $d/*.diff $d/meta.json; (cd /repo && timeout 300 bash $d/demo.sh) >>$log 2>&1; r=$?; rm -rf "$d"; return $r; }
echo == > $log
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: clean build failed"
t0=$(date +%s); demo; r=$?; [ $r = 0 ] || echo "$id: demo fails on the unchanged tree ($r): $(tail -3 $log)"
git apply $S/patch.diff || { echo "$id: does not apply"; exit; }
bash /opt/vp/build.sh >>$log 2>&1 || { echo "$id: does not build: $(grep error: $log | head -3)"; git checkout -q -f .; exit; }
demo; r=$?; [ $r != 0 ] || echo "$id: demo passes with the change"
t1=$(date +%s)
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/seed.$id.json >>$log 2>&1
python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.%s.json'%sys.argv[1]))
m=set(b['stable'])-set(t['passed'])
print('%s: %s'%(sys.argv[1], 'tests pass' if not m else 'TESTS FAIL: %s'%sorted(m)[:4]))
P
fi
echo "$id: demo rc $r, $((t1-t0)) s"
git checkout -q -f .
X
done
