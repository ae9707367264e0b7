#!/bin/bash
# tryseed.sh <seed id> [check ids...]: in a copy of /repo bound over /repo in a mount namespace of its own: apply a planted
# change, build, run the stable tests, the demo and the checks.  NOTEST=1 / NODEMO=1 leave parts out.
if [ -z "$TS_IN" ]; then
  d=$(mktemp -d /tmp/seedrepo-XXXXXX); cp -a /repo/. "$d"/
  TS_IN=$d unshare -Urmi bash "$0" "$@"; rc=$?
  find "$d" -delete; exit $rc
fi
mount --bind "$TS_IN" /repo || exit 2
id=$1; S=/verif/seeded/$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
L=$(mktemp -d /tmp/seedlog-XXXXXX); echo "== $id ($L)"
if [ -z "$NODEMO" ]; then bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD0 FAILED; exit 1; }
timeout 300 bash "$S/demo.sh" >$L/demo0.log 2>&1; echo "demo clean rc=$?"; fi
git apply --whitespace=nowarn "$S/patch.diff" || { echo APPLY FAILED; exit 1; }
bash /opt/vp/build.sh >$L/build.log 2>&1 || { echo BUILD FAILED; tail -5 $L/build.log; exit 1; }
[ -n "$NODEMO" ] || { timeout 300 bash "$S/demo.sh" >$L/demo1.log 2>&1; echo "demo patched rc=$?"; }
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $L/t.json >$L/t.log 2>&1
python3 - $L/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def s(x):
    for k in ('stable','passed','pass','tests'):
        if isinstance(x,dict) and k in x: return x[k]
    return x
B=set(s(b)); T=set(t.get('passed',[])) if isinstance(t,dict) else set(t)
print('tests missing:', sorted(B-T)[:5], len(B-T))
P
fi
for c in "$@"; do VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash /verif/run.sh $c quick 2>&1 | grep -E 'VIOLATION|held|VIOLATED|ERROR|rror' | cut -c1-200 | head -3; done
