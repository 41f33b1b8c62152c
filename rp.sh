#!/bin/bash
# developer helper: replay the cases of the last r.sh run natively
[ -n "$1" ] && ./bin/gosym replaybuild /tmp/rb
rm -f /tmp/case*.json
python3 /tmp/c.py
for f in /tmp/case*.json; do
  b=conc; grep -q '"conc": true' $f || b=plain
  VERIF_CASE=$f timeout 60 /tmp/rb/$b.test -test.run TestVerifReplay > $f.out 2>&1; echo "$(basename $f) rc=$? want=$(python3 -c "import json;print(json.load(open('$f'))['outcome'])") $(grep -E 'DIVERGED|FAIL|HANG|panic' $f.out | head -3 | tr '\n' ' ')"
done
