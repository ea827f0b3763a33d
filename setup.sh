#!/bin/bash
# Builds the verifier (offline) into /verif/bin unless it is there and newer than its sources.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off CGO_ENABLED=0
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOMAXPROCS GORACE GODEBUG GOOS GOARCH
bin=$here/bin/skverif
if [ -x "$bin" ] && [ -z "$(find "$here/engine" -newer "$bin" -type f -print -quit)" ]; then exit 0; fi
mkdir -p "$here/bin"
cd "$here/engine" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin"
