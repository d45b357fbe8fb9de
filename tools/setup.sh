#!/bin/sh
# warms the build cache; every check builds what it needs itself
cd "$(dirname "$0")/.." || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
t=$(mktemp -d) || exit 1
(cd tools/instr && go build -o "$t/instr" main.go)
(cd /repo && go build -o "$t/j8a" ./cmd/j8a && go vet -h >/dev/null 2>&1)
rm -rf "$t"
exit 0
