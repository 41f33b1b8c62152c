#!/bin/bash
# builds bin/gosym from engine/, offline
cd "$(dirname "$0")/engine" || exit 2
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/gosym.$$ . && mv ../bin/gosym.$$ ../bin/gosym
