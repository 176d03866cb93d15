#!/bin/bash
# Development aid: tools/seedtest.sh ID [notest]
# Confirms seeded/ID in a throw-away mount namespace (overlays over /repo, /opt/venv, /opt/build, /verif):
# demo passes unchanged, patch applies and builds, demo fails, stable tests pass, and what the check says.
ID=$1; NOTEST=$2
B=/tmp/st.$ID; rm -rf "/tmp/st.$ID"; mkdir -p $B
for d in repo venv build verif; do mkdir -p $B/$d.up $B/$d.wk; done
export B ID NOTEST
unshare -m bash -s <<'I'
mount --make-rprivate /
ov() { mount -t overlay overlay -o lowerdir=$1,upperdir=$B/$2.up,workdir=$B/$2.wk $1; }
ov /repo repo; ov /opt/venv venv; ov /opt/build build; ov /verif verif
cp -r /verif/seeded/$ID $B/demo; rm -f $B/demo/*.diff $B/demo/meta.json
cd /repo; git checkout -q -- . 
export PYTHONDONTWRITEBYTECODE=1
timeout 300 bash $B/demo/demo.sh > $B/clean.log 2>&1; R1=$?
git apply /verif/seeded/$ID/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit; }
bash /opt/vp/build.sh > $B/build.log 2>&1; RB=$?
timeout 300 bash $B/demo/demo.sh > $B/bug.log 2>&1; R2=$?
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
T=skipped
if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh $B/out.json > $B/test.log 2>&1
  T=$(python3 - <<'P'
import json,os
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(os.environ['B']+'/out.json'))
bad=[x for x in b if x not in set(o['passed'])]
print(len(bad),'stable tests fail',bad[:4])
P
)
fi
cd /verif; python3 run.py $P > $B/check.log 2>&1; RC=$?
echo "$ID[$P]: demo clean=$R1 build=$RB demo bug=$R2 tests: $T check=$RC $(grep -m1 VIOLATION $B/check.log)"
[ $R1 = 0 ] && [ $RB = 0 ] && [ $R2 != 0 ] || { tail -3 $B/clean.log $B/bug.log; tail -5 $B/build.log; }
[ $RC = 1 ] || tail -3 $B/check.log
I
