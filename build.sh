#!/bin/bash
# Builds the simulator and, through it, /repo as it is now. Everything is
# written to /verif/build.
set -e
cd "$(dirname "$0")"
HERE=$PWD
REPO=${VERIF_REPO:-/repo}
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on
unset GOOS GOARCH GORACE
mkdir -p build/bin evidence replays
exec 9>build/lock
flock 9
rm -rf "$HERE/build/gen"
mkdir -p build/gen
(cd sim/instr && go build -o "$HERE/build/bin/instr" .)
build/bin/instr "$REPO" "$HERE/sim/src" "$HERE/build/gen" > build/instr.log
cd "$REPO"
go build -trimpath -overlay "$HERE/build/gen/overlay.json" -o "$HERE/build/bin/simcheck" ./verifsim/check
if [ "${1:-all}" = all ] || [ "$1" = web ]; then
  GOOS=js GOARCH=wasm go build -trimpath -o "$HERE/build/bin/parser.wasm" ./web/parser
fi
if [ "${1:-all}" = all ] || [ "$1" = race ]; then
  go build -trimpath -race -overlay "$HERE/build/gen/overlay.json" -o "$HERE/build/bin/simcheck-race" ./verifsim/check
fi
