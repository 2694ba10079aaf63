#!/bin/bash
# seedtest.sh ID: confirm a planted bug (builds, passes the stable tests, its demo
# tells it apart) in a scratch copy of /repo bound over /repo in a private mount namespace.
id=$1; S=/tmp/sc.$id; mkdir -p $S
cp -a /repo $S/repo; git -C $S/repo checkout -q -- .; cp -a /verif/seeded/$id $S/demo
cat > $S/run.sh <<X
mount --bind $S/repo /repo
cd /repo
bash /opt/vp/build.sh > $S/b0.log 2>&1 || echo BUILD0-FAIL
timeout 300 bash $S/demo/demo.sh > $S/d0.log 2>&1; echo "demo clean rc=\$?"
git apply $S/demo/patch.diff || echo APPLY-FAIL
bash /opt/vp/build.sh > $S/b1.log 2>&1 || { echo BUILD-FAIL; tail -20 $S/b1.log; }
timeout 300 bash $S/demo/demo.sh > $S/d1.log 2>&1; echo "demo patched rc=\$?"; tail -3 $S/d1.log
bash /opt/vp/test.sh $S/out.json > $S/t.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
stable=set(b['stable'])
ok=set(o.get('passed') or o.get('pass') or [])
print('stable', len(stable), 'passing', len(ok), 'broken', sorted(stable-ok))
P
X
unshare -m bash $S/run.sh
find $S -delete
