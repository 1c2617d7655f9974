#!/bin/bash
# Warms the Go build cache; every check rebuilds what it needs itself.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 GOTOOLCHAIN=local
cd "$V/engine" && go build -o /dev/null .
cd "$V/harness" && go build -o /dev/null ./cmd/replay
z3 --version
