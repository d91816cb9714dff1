#!/bin/bash
# seedcheck.sh <id>...: runs the check of the property of each planted change with the change applied (in a scratch copy
# bound over /repo in a private mount namespace, with evidence and build folders of its own)
[ -d /tmp/seedrepo/.git ] || { mkdir -p /tmp/seedrepo; cp -a /repo/. /tmp/seedrepo/; }
exec 9>/tmp/seedtest.lock; flock 9
git -C /tmp/seedrepo fetch -q /repo HEAD && git -C /tmp/seedrepo checkout -q -f FETCH_HEAD
mkdir -p /tmp/seedev /tmp/seedbuild
for id in "$@"; do
unshare -m bash -s "$id" <<'X'
id=$1; S=/verif/seeded/$id
mount --bind /tmp/seedrepo /repo || exit 1
mount --bind /tmp/seedev /verif/evidence; mount --bind /tmp/seedbuild /verif/.build
cd /repo; git checkout -q -f .
git apply $S/patch.diff || { echo "$id: does not apply"; exit; }
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
t0=$(date +%s); (cd /verif; timeout 900 python3 check.py $p > /tmp/seedcheck.$id.log 2>&1); r=$?
echo "$id: $p rc $r, $(grep -c "^VIOLATION property=$p" /tmp/seedcheck.$id.log) violations, $(( $(date +%s)-t0 )) s; $(grep -B1 -m1 ^VIOLATION /tmp/seedcheck.$id.log | head -1 | cut -c1-200)"
git checkout -q -f .
X
done
