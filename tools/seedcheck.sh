#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs in a scratch copy of /repo: patch applies, builds, passes the stable tests, the demo
# passes without and fails with it.
for id in "$@"; do
s=/verif/seeded/$id
w=/tmp/seed.$id
rm -rf "$w"; cp -a /repo "$w" && cd "$w" || exit 1
r=""
( cp "$s"/* /tmp/seeddemo.$id/ 2>/dev/null || { mkdir -p /tmp/seeddemo.$id; cp "$s"/* /tmp/seeddemo.$id/; } )
timeout 300 bash /tmp/seeddemo.$id/demo.sh > /tmp/seed.$id.d0 2>&1 || r="$r DEMO-FAILS-ON-CLEAN"
git apply "$s/patch.diff" || r="$r NOAPPLY"
. /opt/vp/env.sh
go build ./... || r="$r NOBUILD"
timeout 300 bash /tmp/seeddemo.$id/demo.sh > /tmp/seed.$id.d1 2>&1 && r="$r DEMO-PASSES-WITH-BUG"
sed "s#/repo#$w#g" /opt/vp/test.sh > /tmp/seed.$id.test.sh
bash /tmp/seed.$id.test.sh /tmp/seed.$id.json > /dev/null 2>&1
python3 - "$id" <<'P' || r="$r TESTS-FAIL"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(f'/tmp/seed.{sys.argv[1]}.json'))
def names(x):
    for k in ('pass','passed','stable','tests'):
        if k in x: return set(x[k]) if not isinstance(x[k],dict) else {n for n,v in x[k].items() if v in('pass','passed',True)}
    return set(x)
m=names(b)-names(t)
if m: print('missing',list(m)[:5])
sys.exit(1 if m else 0)
P
echo "$id:${r:- ok}"
cd /; rm -rf "$w" /tmp/seeddemo.$id /tmp/seed.$id.test.sh
done
