#!/bin/bash
# seedtest.sh ID [nocheck]: in a scratch copy of /repo (/tmp/wr): the demo on the clean tree, then patched: build, stable tests, demo, the property's quick check.
ID=$1; S=/verif/seeded/$ID; W=/tmp/wr
if [ ! -d $W ]; then cp -a /repo $W; fi
for s in build test; do sed 's#/repo#/tmp/wr#g; s#/opt/vp/build.sh#/tmp/wr_build.sh#g' /opt/vp/$s.sh > /tmp/wr_$s.sh; done
cd $W || exit 2; git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash /tmp/wr_build.sh >/tmp/seed_b.log 2>&1 || echo CLEAN-BUILD-FAILS
D=$(mktemp -d); cp -r $S/. $D; rm -f $D/*.diff $D/meta.json
timeout 300 bash $D/demo.sh >/tmp/seed_d0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo "$ID patch does not apply"; exit 2; }
bash /tmp/wr_build.sh >/tmp/seed_b.log 2>&1 && b=ok || b=FAILS
bash /tmp/wr_test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1
t=$(python3 -c "
import json
d=json.load(open('/tmp/seed_t.json')); s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); print('tests-missing:%d' % len(s-set(d['passed'])))")
timeout 300 bash $D/demo.sh >/tmp/seed_d1.log 2>&1; d1=$?
c=-; [ "$2" != nocheck ] && { (cd /verif; VERIF_REPO=$W python3 check.py run $P > /tmp/seed_c.log 2>&1); c=$?; v=$(grep -m1 VIOLATION /tmp/seed_c.log); }
git checkout -q -- .; rm -rf $D
echo "$ID prop=$P build=$b $t demo clean=$d0 patched=$d1 check=$c $v" | tee -a /tmp/seedtest.log
