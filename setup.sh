#!/bin/bash
# Warms the build caches; every check builds what it needs itself.
cd "$(dirname "$0")" || exit 1
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
mkdir -p .build out evidence
t=$(mktemp -d "$PWD/.build/setup.XXXXXX") || exit 1
trap 'rm -rf "$t"' EXIT
(cd harness && go build -o "$t/uipcheck" . && go build -race -o "$t/race" .) || exit 1
(cd harness && CGO_ENABLED=0 GOARCH=386 go build -o "$t/d" ./godrv; CGO_ENABLED=0 go build -gcflags=all='-N -l -d=checkptr=1' -o "$t/d" ./godrv; CGO_ENABLED=1 go build -asan -o "$t/d" ./godrv) || exit 1
echo ready
