#!/bin/bash
# Runs the program beside this script against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
go build -o "$t/demo" "$here/demo.go" || exit 2
timeout 100 "$t/demo" 2>&1 | tail -c 4000
exit "${PIPESTATUS[0]}"
