#!/bin/bash
# regenerates registry.go from the H_ functions in this directory
cd "$(dirname "$0")"
{
echo "package h"
echo
echo "// All harnesses by name; generated by gen.sh."
echo "var All = map[string]func(){"
grep -ho '^func H_[A-Za-z0-9_]*' *.go | sed 's/^func //' | sort | sed 's/\(.*\)/	"\1": \1,/'
echo "}"
} > registry.go.tmp && mv registry.go.tmp registry.go && gofmt -w registry.go
