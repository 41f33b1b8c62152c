#!/bin/bash
# Runs the in-package test beside this script against the tree in the working directory.
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\"Replace\":{\"$PWD/zdemo_test.go\":\"$d/zdemo_test.go\"}}" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestZDemo' .
