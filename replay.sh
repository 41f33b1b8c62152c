#!/bin/bash
# replay.sh FILE: builds the replay binaries from /repo's current sources and runs the case of a violation file.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
./build.sh || exit 2
VERIF_PKG=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("pkg",""))' "$1"); export VERIF_PKG
d=$(mktemp -d); ./bin/gosym replaybuild "$d" >/dev/null
python3 - "$1" "$d/case.json" <<'P'
import json,sys
v=json.load(open(sys.argv[1])); json.dump(v.get("case",v),open(sys.argv[2],"w"))
P
b=plain; grep -q '"conc": true' "$d/case.json" && b=conc
VERIF_CASE="$d/case.json" "$d/$b.test" -test.run '^TestVerifReplay$'; rc=$?
rm -rf "$d"; exit $rc
