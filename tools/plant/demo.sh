#!/bin/bash
# Runs main.go against the gosu-pp tree in the current directory.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export HOME="${HOME:-/root}" GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cp "$here"/*.go "$tmp"/ && cp "$repo/go.sum" "$tmp"/ || exit 2
cat > "$tmp/go.mod" <<MOD
module demo

go 1.17

require (
	github.com/Wieku/gosu-pp v0.0.0
	golang.org/x/text v0.3.7
)

replace github.com/Wieku/gosu-pp => $repo
MOD
cd "$tmp" || exit 2
go build @BUILD@-o demo . || exit 3
timeout 120 ./demo
rc=$?
exit $rc
