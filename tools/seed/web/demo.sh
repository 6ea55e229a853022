#!/bin/bash
# Runs the bundle in node and compares its answers with those of the library.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
go build -o "$t/lib" "$here/lib.go" || exit 2
GOOS=js GOARCH=wasm go build -o "$t/parser.wasm" ./web/parser || exit 2
exec_js=$(go env GOROOT)/lib/wasm/wasm_exec.js
timeout 100 "$t/lib" "$here/texts.json" > "$t/want" || exit 2
timeout 100 node "$here/run.js" "$exec_js" "$t/parser.wasm" "$here/texts.json" > "$t/got" || exit 1
cmp "$t/want" "$t/got"
