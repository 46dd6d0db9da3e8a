#!/bin/bash
# Builds the harness once (warms the build cache); every check builds it again from /repo.
set -eu
cd "$(dirname "$0")/../harness"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
out=$(mktemp -d)
trap 'rm -rf -- "$out"' EXIT
go build -o "$out/props" ./cmd/props
go build -o "$out/prim" ./cmd/prim
go build -race -o "$out/race" ./cmd/props
"$out/props" -list >/dev/null
