#!/bin/bash
# developer helper: build and run one harness; prints a digest of the result
cd /verif/engine && GOFLAGS=-mod=mod GOPROXY=off go build -o ../bin/gosym . && cd .. && ./bin/gosym run "$@" > /tmp/r.out; python3 - <<'P'
import json,os
try: d=json.load(open('/tmp/r.out'))
except Exception: print(open('/tmp/r.out').read()); raise SystemExit
if not os.environ.get('FULL'):
    d['Samples']=len(d['Samples'] or [])
    if d['Functions']: d['Functions']=len(d['Functions'])
    for f in d['Found'] or []:
        f['Case']={'vals':f['Case'].get('vals'),'steps':[s.get('s',s) for s in (f['Case'].get('sched') or [])][-30:]}
print(json.dumps(d)[:6000])
P
