#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the verifier if needed and decides one property.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOMAXPROCS GORACE GODEBUG GOOS GOARCH
export SKV_ROOT=$here
"$here/setup.sh" || exit 2
exec "$here/bin/skverif" check "$@"
