#!/bin/bash
# seedtest.sh ID [CHECK...]: validate seeded/ID in a scratch copy of /repo and run its check (and CHECKs) on it.
ID=$1; shift
V=$(dirname "$(dirname "$(realpath "$0")")")
D=$V/seeded/$ID
S=/tmp/seed.$ID
LOG=/tmp/seedlog; mkdir -p $LOG
PID=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
R="$ID [$PID]"
rm -rf /tmp/seed.$ID; cp -a /repo $S
cd $S
if [ -z "$QUICKSEED" ]; then
bash $D/demo.sh > $LOG/$ID.demo0 2>&1; R="$R demo-clean=$?"
fi
git apply $D/patch.diff || { echo "$R: patch does not apply"; rm -rf /tmp/seed.$ID; exit 1; }
if [ -z "$QUICKSEED" ]; then
sed "s#/repo#$S#g" /opt/vp/env.sh > $S/target/env.sh
sed "s#/repo#$S#g; s#/opt/vp/env.sh#$S/target/env.sh#" /opt/vp/build.sh > $S/target/b.sh
sed "s#/repo#$S#g; s#/opt/vp/env.sh#$S/target/env.sh#" /opt/vp/test.sh > $S/target/t.sh
bash $S/target/b.sh > $LOG/$ID.build 2>&1; R="$R build=$?"
bash $S/target/t.sh $LOG/$ID.json > $LOG/$ID.test 2>&1
R="$R tests: $(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
r=json.load(open('$LOG/$ID.json'))
p=set(r.get('passed') or [k for k,v in r.items() if v=='passed'])
m=[x for x in b if x not in p]
print('all pass' if not m else 'BROKEN %d %s'%(len(m),m[:3]))
P
)"
bash $D/demo.sh > $LOG/$ID.demo1 2>&1; R="$R demo-patched=$?"
fi
C=/tmp/seedcache.$ID; rm -rf /tmp/seedcache.$ID; cp -a $V/.cache $C
for p in $PID "$@"; do
  DIMAN_REPO=$S DIMAN_CACHE=$C python3-vt $V/check.py $p > $LOG/$ID.$p 2>&1
  rc=$?
  n=$(grep -c "^VIOLATION property=$p" $LOG/$ID.$p)
  R="$R $p:rc=$rc,violations=$n"
done
echo "$R"
rm -rf /tmp/seed.$ID /tmp/seedcache.$ID
