#!/bin/bash
# Runs the demonstration against the working tree in the current directory.
# Exit 0: the property holds in this scenario, otherwise it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)" || exit 3
trap 'rm -rf "$w"' EXIT
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GO111MODULE=off GOENV=off GOFLAGS= GOTOOLCHAIN=local GOPROXY=off
export CGO_ENABLED=0 GOPATH="$w" GOCACHE="$w/cache"
mkdir -p "$w/src/github.com/qbeon" "$w/src/demo" "$w/run"
ln -s "$repo" "$w/src/github.com/qbeon/webwire-go"
cp "$here"/*.go "$w/src/demo/"
cd "$w/src/demo" && go build -o "$w/bin-demo" . || exit 3
cd "$w/run" && timeout 120 "$w/bin-demo"
rc=$?
exit $rc
