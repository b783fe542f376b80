#!/bin/bash
# seedtest.sh ID [check...]: validates a planted bug in /repo and runs checks against it, then undoes it
id=$1; shift; S=/verif/seeded/$id; cd /repo || exit 2
restore() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; }
trap restore EXIT
D=$(mktemp -d /tmp/seed.XXXX); cp -a $S/. $D/; rm -f $D/*.diff $D/meta.json
if [ -z "$NOVAL" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
bash $D/demo.sh >$D/out0 2>&1; r0=$?
git apply $S/patch.diff || exit 2
bash /opt/vp/build.sh >$D/b 2>&1 || { echo "BUILD FAILS"; tail -5 $D/b; }
bash $D/demo.sh >$D/out1 2>&1; r1=$?
bash /opt/vp/test.sh $D/t.json >/dev/null 2>&1
python3 - $D/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def names(x,k):
    v=x.get(k)
    return set(v) if isinstance(v,list) else {n for n,r in v.items() if r in (True,'pass','passed')} if isinstance(v,dict) else set()
bp=None
for k in ('stable',):
    if k in b: bp=names(b,k); break
tp=None
for k in ('passed','pass','tests'):
    if k in t: tp=names(t,k); break
print('tests: missing', sorted((bp or set())-(tp or set()))[:5], 'of', len(bp or ()))
P
echo "demo unchanged=$r0 patched=$r1"; tail -2 $D/out0 | sed 's/^/  0: /'; tail -2 $D/out1 | sed 's/^/  1: /'
else git apply $S/patch.diff || exit 2; fi
for c in "$@"; do (cd /verif; timeout 900 ./check $c 2>&1 | tail -4 | cut -c1-400); done
rm -rf "$D"
