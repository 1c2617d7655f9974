#!/bin/bash
# Runs demo_test.go as a package laid over the working tree in the current directory (/repo).
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cp "$repo/protocol/go.mod" "$w/m.mod" && cp "$repo/protocol/go.sum" "$w/m.sum" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -modfile=$w/m.mod"
{
	printf '{"Replace":{'
	sep=
	for f in "$here"/*_test.go; do
		printf '%s"%s/protocol/zzdemo/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"
		sep=,
	done
	printf '}}'
} >"$w/overlay.json"
cd "$repo/protocol" || exit 3
go test -c -vet=off -o "$w/demo" -overlay "$w/overlay.json" ./zzdemo || exit 3
cd "$w" && TMPDIR=$w ./demo -test.run TestDemo -test.timeout 200s
