#!/bin/bash
# Build the harness once so that the build cache is warm.
set -e
cd /verif/harness
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p /verif/.build
go build -o /verif/.build/harness .
# the explorer of C17 is built with the race detector
go build -race -tags free -o /verif/.build/warm ./conc
rm -f /verif/.build/warm
