#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
#
# Builds the explorer (and, where the property needs them, the command, the web
# bundle and the race-detecting explorer) from /repo's working tree into a
# scratch directory and runs one check. Exit 0: held; 1: violated; 2: could not
# be built.
set -u
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export VERIF_ROOT=$here VERIF_TIER=$tier
[ -n "${HOME:-}" ] || export HOME=/root
[ "${REPO:-/repo}" = /repo ] || { echo "only /repo can be checked" >&2; exit 2; }
scratch=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
cleanup() { case $scratch in /tmp/verif-check.*) chmod -R u+rwX "$scratch" 2>/dev/null; rm -rf "$scratch";; esac; }
trap cleanup EXIT
trap 'exit 2' INT TERM
export TMPDIR=$scratch/tmp
mkdir "$TMPDIR"
build() { # output, package dir, package, env...
  local out=$1 dir=$2 pkg=$3; shift 3
  (cd "$dir" && env "$@" go build -o "$out" $RACE "$pkg") || { echo "build of $pkg failed" >&2; exit 2; }
}
RACE=
[ "$id" != C28 ] || RACE="-tags lookahead"
build "$scratch/mc" "$here/mc" ./cmd/mc X=
case $id in
C20) RACE=-race build "$scratch/mc-race" "$here/mc" ./cmd/mc X=; export MC_RACE=$scratch/mc-race ;;
C21) build "$scratch/estree" "$here/mc" github.com/jchv/cleansheets/cmd/estree X=; export MC_ESTREE=$scratch/estree ;;
C22|C26) build "$scratch/parser.wasm" "$here/mc" github.com/jchv/cleansheets/web/parser GOOS=js GOARCH=wasm
     export MC_WASM=$scratch/parser.wasm MC_WASM_EXEC=$(go env GOROOT)/lib/wasm/wasm_exec.js MC_DRIVER=$here/mc/web/driver.js
     export MC_PAGE_DRIVER=$here/mc/web/page.js MC_PAGE=${REPO:-/repo}/web/parser/index.html ;;
esac
[ "$id" != build ] || exit 0 # setup only tries whether everything builds
rc=0
"$scratch/mc" check "$id" "$tier" || rc=$?
case $rc in 0|1) exit $rc;; *) echo "the explorer ended with status $rc" >&2; exit 2;; esac
