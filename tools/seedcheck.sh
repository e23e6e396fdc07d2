#!/bin/bash
# seedcheck.sh [--notest] [--nocheck] ID...: confirm planted bugs in private copies of
# /repo (bind-mounted over the real path in a mount namespace) and /verif.
T=1; C=1
while :; do case "$1" in --notest) T=0; shift;; --nocheck) C=0; shift;; *) break;; esac; done
HEAD=$(git -C /repo rev-parse HEAD)
BASE=/tmp/seedbase
if [ "$(cat $BASE/head 2>/dev/null)" != "$HEAD" ]; then
    rm -rf /tmp/seedbase; mkdir -p $BASE
    git clone -q /repo $BASE/repo
    [ -d /repo/_build ] && cp -a /repo/_build $BASE/repo/
    unshare -Urm bash -c "mount --bind $BASE/repo /repo && bash /opt/vp/build.sh" > $BASE/build.log 2>&1 || { echo "base build failed"; exit 1; }
    echo $HEAD > $BASE/head
fi
for id in "$@"; do
    S=/verif/seeded/$id
    P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    W=/tmp/seedwork-$id; rm -rf "/tmp/seedwork-$id"; mkdir -p $W
    cp -a $S $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
    unshare -Urm bash -c "mount --bind $BASE/repo /repo && cd /repo && timeout 300 bash $W/demo/demo.sh" > $W/demo-base.log 2>&1; r0=$?
    cp -a $BASE/repo $W/repo
    git -C $W/repo apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
    if [ $T = 1 ]; then
        unshare -Urm bash -c "mount --bind $W/repo /repo && bash /opt/vp/test.sh $W/out.json" > $W/test.log 2>&1
        tst=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
bl=b.get('stable') or b.get('passed') or b
bl=set(bl if isinstance(bl,list) else bl.keys())
print('tests-missing', sorted(bl-set(o['passed']))[:6])
PY
)
    else
        unshare -Urm bash -c "mount --bind $W/repo /repo && bash /opt/vp/build.sh" > $W/test.log 2>&1 || echo "$id: build failed"
        tst=untested
    fi
    unshare -Urm bash -c "mount --bind $W/repo /repo && cd /repo && timeout 300 bash $W/demo/demo.sh" > $W/demo-bug.log 2>&1; r1=$?
    chk=unchecked
    if [ $C = 1 ]; then
        mkdir -p $W/verif; (cd /verif && tar cf - --exclude=./build --exclude=./seeded --exclude=./.git .) | tar xf - -C $W/verif
        (cd $W/verif && VERIF_REPO=$W/repo timeout 900 python3 tools/check.py $P) > $W/check.log 2>&1; rc=$?
        chk="check exit $rc $(grep -c '^VIOLATION property='$P $W/check.log)"
    fi
    echo "$id ($P): demo base=$r0 bug=$r1; $tst; $chk"
    rm -rf "/tmp/seedwork-$id/repo" "/tmp/seedwork-$id/verif"
done
