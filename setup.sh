#!/bin/bash
# Compiles the monitor once, with and without the race detector, so that the
# build cache is warm.  Every check builds it again from the current trees.
set -e
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
work=$(mktemp -d /tmp/ramlmon.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -a "$here/mon" "$work/mon"
cd "$work/mon"
go build -o "$work/run" .
go build -race -o "$work/run-race" .
