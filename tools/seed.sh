#!/bin/bash
# seed.sh ID... : confirm planted changes in a scratch copy (/tmp/sw) and run the property's check against them
SW=${SW:-/tmp/sw}
[ -d $SW ] || cp -a /repo $SW
cd $SW && git fetch -q /repo HEAD 2>/dev/null && git checkout -q -f FETCH_HEAD
sed -e "s#/repo#$SW#g" /opt/vp/env.sh > $SW.env.sh; . $SW.env.sh
for id in "$@"; do
 S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
 git checkout -q . ; git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
 cargo build $ARGS -q 2>$SW.b.log || { echo "$id: DOES NOT BUILD"; tail -20 $SW.b.log; git checkout -q .; continue; }
 T="tests-skipped"
 if [ -z "$NOTEST" ]; then
 cargo test $ARGS --no-fail-fast -- --test-threads 8 > $SW.t.log 2>&1; mkdir -p $SW/target/vp-logs
 cargo build $ARGS -q 2>/dev/null
 python3 /opt/vp/cli_tests.py $SW/target/debug/url-cleaner $SW/tests.json > $SW/target/vp-logs/cli.lines 2>/dev/null
 python3 /opt/vp/results.py $SW.t.json "cargo:$SW.t.log" "lines:$SW/target/vp-logs/cli.lines" >/dev/null
 T=$(python3 - $SW <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]+'.t.json'))
def ok(d):
    for k in ('stable','passed'):
        if k in d: return set(d[k])
    return {k for k,v in d.items() if v in (True,'pass','PASS')}
m=ok(b)-ok(r); print('tests-ok' if not m else 'TESTS-FAIL %d %s'%(len(m),list(m)[:2]))
P
)
 fi
 cp -a $S $SW.demo; rm -f $SW.demo/*.diff $SW.demo/meta.json
 timeout 300 bash $SW.demo/demo.sh > $SW.d.log 2>&1; D=$?
 if [ -z "$NOCHECK" ]; then VX_REPO=$SW VX_BUILD=$SW.vb python3 /verif/run/check.py $P > $SW.c.$id.log 2>&1; C=$?; L=$(grep -E "^VIOLATION" $SW.c.$id.log); else C=-; fi
 git checkout -q .; cargo build $ARGS -q 2>/dev/null
 timeout 300 bash $SW.demo/demo.sh > $SW.d0.log 2>&1; D0=$?
 rm -rf $SW.demo
 echo "$id [$P] $T demo: patched=$D clean=$D0 check=$C $L"
done
