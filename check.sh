#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the symbolic executor when needed and decides one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
./build.sh || exit 2
exec ./bin/gosym check "$@"
