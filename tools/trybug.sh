#!/bin/bash
# trybug.sh ID : apply in /tmp/rw, build, demo on clean+patched, tests. Result in /tmp/bug-ID.txt
ID=$1; S=/verif/seeded/$ID; O=/tmp/bug-$ID.txt; : > $O
exec 9>/tmp/rw.lock; flock 9
cd /tmp/rw && git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
bash $S/demo.sh > /tmp/bug-$ID.demo0 2>&1; echo "demo clean rc=$?" >> $O
git apply $S/patch.diff || { echo "patch FAILED" >> $O; exit 1; }
bash $S/demo.sh > /tmp/bug-$ID.demo1 2>&1; echo "demo patched rc=$? (want nonzero)" >> $O
[ "$2" = nodemo ] && exit
sed 's#/repo#/tmp/rw#g' /opt/vp/test.sh > /tmp/tools/test.sh; 
bash /tmp/tools/test.sh /tmp/bug-$ID.json > /tmp/bug-$ID.test 2>&1
python3 - <<P >> $O
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/bug-$ID.json'))
def passed(x):
    p=x.get('passed',x.get('pass',x)); return set(p)
bl=set(b.get('stable') or b.get('passed') or b.get('tests'))
print('tests missing from passed:', sorted(bl-passed(r))[:10], len(bl-passed(r)))
P
git checkout -q -- .
