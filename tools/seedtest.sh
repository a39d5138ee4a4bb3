#!/bin/bash
# seedtest.sh ID [checks..] : confirms a planted bug in a scratch copy: applies, builds, tests pass, demo 0 -> nonzero;
# then runs the given checks against /repo with the patch applied
ID=$1; shift; S=/verif/seeded/$ID
W=/tmp/seedw; rm -rf /tmp/seedw; cp -a /repo $W
( cd $W && bash $S/demo.sh > /tmp/seedw.d0 2>&1 ); d0=$?
( cd $W && git apply $S/patch.diff ) || { echo "$ID: patch does not apply"; exit 1; }
( cd $W && bash $S/demo.sh > /tmp/seedw.d1 2>&1 ); d1=$?
echo "$ID demo unchanged=$d0 patched=$d1"; tail -2 /tmp/seedw.d1
rm -rf /tmp/seedw
git -C /repo apply $S/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/seedw.b 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seedw.json > /tmp/seedw.t 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seedw.json'))
def names(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    return set(x)
print("$ID build rc=$b tests missing:", sorted(names(b)-names(o))[:5])
P
for c in "$@"; do VERIF_SEED=1 timeout 900 python3 /verif/check.py $c > /tmp/seedw.c 2>&1; echo "$ID check $c rc=$?"; grep -E "VIOLATION|NO-ANSWER" /tmp/seedw.c | head -2;  grep -E "^  " /tmp/seedw.c | head -2 | cut -c1-300; done
git -C /repo checkout -- .
