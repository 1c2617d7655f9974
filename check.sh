#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds everything from /repo's working tree and decides one property.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
P="$1"; T="${2:-${VERIF_TIER:-quick}}"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 GOTOOLCHAIN=local
B="$(mktemp -d /tmp/verif-engine.XXXXXX)" || exit 2
trap 'rm -rf "$B"' EXIT
(cd "$V/engine" && go build -o "$B/engine" .) || { echo "ERROR: engine does not build" >&2; exit 2; }
mkdir -p "$V/evidence"
"$B/engine" -verif "$V" -prop "$P" -tier "$T"
