#!/bin/bash
# builds /repo and runs its stable tests (up to three times); with a message, commits when they pass
bash /opt/vp/build.sh >/tmp/rt.build 2>&1 || { tail -20 /tmp/rt.build; exit 1; }
ok=
for i in 1 2 3; do
bash /opt/vp/test.sh /tmp/t.json >/tmp/rt.out 2>&1
python3 -c "
import json,sys;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('/tmp/t.json'))['passed']);m=b-t;print(len(b&t),'of',len(b),list(m)[:6]);sys.exit(len(m)>0)" && { ok=1; break; }
done
[ -n "$ok" ] || { echo FAILED; exit 1; }
if [ -n "$1" ]; then cd /repo && gofmt -l *.go | grep -vE 'server.go|serveroptions.go'; git add -A && git commit -qm "$1" && git log --oneline | head -1; fi
