#!/bin/bash
# trybug.sh SLOT ID [CHECK...]   tries the planted bug seeded/ID in a private copy of /repo (bind-mounted over /repo in a
# mount namespace of its own): patch applies, builds, stable tests pass, demo 0/nonzero, which checks report it.
# Results: /tmp/tb/out/ID.txt   SKIP="tests demo" leaves steps out
S=/tmp/tb/$1; ID=$2; shift 2
V=/verif; B=$V/seeded/$ID
if [ -z "$INNS" ]; then
  mkdir -p $S/logs $S/evidence $S/replay /tmp/tb/out
  [ -d $S/repo ] || cp -a /repo $S/repo
  [ -d $S/build ] || cp -a $V/.build $S/build
  mkdir -p $V/replay $V/evidence
  # a copy of the simulator's source, so that it can be edited meanwhile
  rm -rf /tmp/tb/$(basename $S)/sim; cp -a $V/sim $S/sim
  INNS=1 exec unshare -m "$0" "$(basename $S)" "$ID" "$@"
fi
mount --make-rprivate / 2>/dev/null
mount --bind $S/sim $V/sim; mount --bind $S/repo /repo; mount --bind $S/build $V/.build; mount --bind $S/logs /opt/vp/logs
mount --bind $S/evidence $V/evidence; mount --bind $S/replay $V/replay
O=/tmp/tb/out/$ID.txt; : > $O
say() { echo "$ID: $*" | tee -a $O; }
git -C /repo checkout -q -- . ; git -C /repo clean -fdq
P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
if [[ " $SKIP " != *" demo "* ]]; then
  (cd /repo && bash $B/demo.sh) > $S/demo0.log 2>&1; r=$?
  [ $r = 0 ] || say "BAD demo fails on the unchanged tree rc=$r: $(tail -3 $S/demo0.log)"
fi
git -C /repo apply $B/patch.diff || { say "BAD patch"; exit 1; }
if [[ " $SKIP " != *" tests "* ]]; then
  bash /opt/vp/build.sh > $S/bld.log 2>&1 || { say "BAD build: $(grep -m3 -A5 '^error' $S/bld.log)"; git -C /repo checkout -q -- .; exit 1; }
  for n in 1 ${TESTREPS:-}; do
  bash /opt/vp/test.sh $S/t.json > $S/tst.log 2>&1
  python3 - $S/t.json <<'PY' | tee -a $O
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def st(x):
    if isinstance(x,dict):
        for k in('tests','results','passed'):
            if k in x: return x[k]
    return x
B=b.get('stable') or b.get('passed') or b.get('tests') or b
T=t.get('passed') or t.get('tests') or t
if isinstance(B,dict): B=[k for k,v in B.items()]
if isinstance(T,dict): T=[k for k,v in T.items() if v in('passed','ok',True)]
m=[x for x in B if x not in T]
print('tests:',len(B)-len(m),'pass',('MISSING '+str(m[:6])) if m else '')
PY
  done
fi
if [[ " $SKIP " != *" demo "* ]]; then
  (cd /repo && timeout 300 bash $B/demo.sh) > $S/demo1.log 2>&1; r=$?
  [ $r != 0 ] && say "demo ok: $(tail -1 $S/demo1.log | cut -c1-150)" || say "BAD demo passes with the patch"
fi
for c in ${*:-$P}; do
  t0=$SECONDS
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 $V/run.sh $c --tier ${TIER:-quick} $MORE > $S/chk.log 2>&1; r=$?
  say "$c rc=$r $((SECONDS-t0))s $(grep -m1 VIOLATION $S/chk.log)"
  cp $S/chk.log /tmp/tb/out/$ID.$c.log
done
git -C /repo checkout -q -- . ; git -C /repo clean -fdq
