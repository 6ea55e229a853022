#!/bin/bash
# Parses the texts in probes.json with the library in the current directory and
# compares the outcomes with the expected ones stored there.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
go build -o "$t/probe" "$here/probe.go" || exit 2
ulimit -v 8000000
timeout 60 "$t/probe" "$here/probes.json" 2>&1 | tail -c 4000
exit "${PIPESTATUS[0]}"
