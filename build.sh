#!/bin/bash
# Builds the simulator against /repo's working tree: instruments it into sim/gen and links build/simcheck.
cd "$(dirname "$0")" || exit 2
V=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off CGO_ENABLED=0 TZ=UTC GOCACHE="$V/build/gocache"
REPO=${VERIF_REPO:-/repo}
set -e
mkdir -p build
exec 9>build/lock
flock 9
(cd sim/instr && go build -o "$V/build/instr" .)
build/instr -repo "$REPO" -out "$V/sim/gen" -shims "$V/sim/shimsrc"
cd sim && go build -o "$V/build/simcheck" ./h
