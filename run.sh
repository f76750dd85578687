#!/bin/bash
# run.sh <check id> <tier>: build the harness against /repo's working tree and run one check.
set -u
cd /verif/harness || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export HOME="${HOME:-/root}"
mkdir -p /verif/.build
go build -o /verif/.build/harness . || exit 3
exec /verif/.build/harness -check "$1" -tier "$2" -seed "${VERIF_SEED:-1}"
