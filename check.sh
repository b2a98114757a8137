#!/bin/bash
# Usage: check.sh build | check.sh <property> [quick|thorough] [engine flags]
# Builds the engine (from /verif/engine) when its binary is missing or older than its sources and
# runs one property against /repo's current working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
bin=$here/.bin/vx
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOMODCACHE=${GOMODCACHE:-$GOPATH/pkg/mod} HOME=${HOME:-/root} TZ=UTC
go=/opt/veriftools/go1.27.3/bin/go
[ -x "$go" ] || go=$(command -v go)
if [ ! -x "$bin" ] || [ -n "$(find "$here/engine" -newer "$bin" -type f | head -1)" ]; then
  mkdir -p "$here/.bin"
  (cd "$here/engine" && GOFLAGS=-mod=mod "$go" build -o "$bin.$$" . && mv "$bin.$$" "$bin") >&2 || { echo "engine build failed" >&2; exit 2; }
fi
[ "${1:-}" = build ] && exit 0
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift
[ $# -gt 0 ] && shift
exec "$bin" -prop "$prop" -tier "$tier" -repo /repo -verif "$here" "$@"
