#!/bin/bash
# usage: check.sh PROPERTY-ID     (VERIF_TIER=quick|thorough)
# Builds the analyser if it is not there and runs one property's check against /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
bin="$here/bin/gsv"
build() { mkdir -p "$here/bin" && (cd "$here/gsv" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin"); }
if [ "$1" = "--build" ]; then build; exit $?; fi
stale=0
[ -x "$bin" ] || stale=1
[ $stale = 0 ] && [ -n "$(find "$here/gsv" -maxdepth 1 -newer "$bin" \( -name '*.go' -o -name go.mod \) -print -quit)" ] && stale=1
if [ $stale = 1 ]; then build || { echo "analyser does not build"; exit 2; }; fi
unset GOFLAGS
export GOFLAGS=-mod=mod
exec "$bin" check "$1" "${REPO:-/repo}" "$here"
