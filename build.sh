#!/bin/bash
# build.sh -- build the symbolic engine from the committed sources (offline)
cd "$(dirname "$0")/engine" || exit 2
stamp=$(cat *.go go.mod go.sum | sha256sum | cut -c1-32)
[ -x ../bin/engine ] && [ "$(cat ../bin/stamp 2>/dev/null)" = "$stamp" ] && exit 0
mkdir -p ../bin
GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod go build -o ../bin/engine.$$ . || exit 1
mv ../bin/engine.$$ ../bin/engine && echo "$stamp" > ../bin/stamp
