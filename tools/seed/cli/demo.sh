#!/bin/bash
# Runs the command on files in a scratch directory.
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
go build -o "$t/estree" ./cmd/estree || exit 2
cd "$t" || exit 2
echo 'a' > a.js; echo 'b < 1' > b.js; echo 'c' > c.js; echo 'd ) e' > bad.js
fail() { echo "$1"; exit 1; }
tree() { ./estree "$1.js" 2>/dev/null || fail "$1.js fails"; }
tree a > a.out; tree b > b.out; tree c > c.out
python3 -c 'import json, sys
for f in sys.argv[1:]: json.load(open(f))' a.out b.out c.out || fail "output is not JSON"
(cat a.out; printf '\n---\n'; cat b.out; printf '\n---\n'; cat c.out) > want
./estree a.js b.js c.js > got 2>/dev/null || fail "a, b and c fail"
cmp want got || fail "output for a, b and c differs"
./estree a.js bad.js c.js > got 2> err && fail "bad.js goes unnoticed"
grep -q bad.js err || fail "bad.js is not named"
(cat a.out; printf '\n---\n') > want
cmp want got || fail "output for a, bad and c differs"
./estree a.js missing.js c.js > got 2> err && fail "missing.js goes unnoticed"
grep -q missing.js err || fail "missing.js is not named"
cmp want got || fail "output for a, missing and c differs"
: > empty.js
./estree empty.js a.js > got 2>/dev/null || fail "empty.js fails"
tree empty > empty.out
python3 -c 'import json; json.load(open("empty.out"))' || fail "no tree for empty.js"
(cat empty.out; printf '\n---\n'; cat a.out) > want
cmp want got || fail "output for empty and a differs"
(printf 'a\n//'; head -c 200000 /dev/zero | tr '\0' x; printf '\nb') > long.js; printf 'a\nb' > short.js
tree long > long.out; tree short > short.out
cmp long.out short.out || fail "the end of a long file is lost"
mkdir many || exit 2
for i in $(seq 60); do cp a.js many/$i.js; done
(ulimit -n 30; exec ./estree many/*.js) > got 2>/dev/null || fail "60 files fail"
[ "$(grep -cx -e --- got)" = 59 ] || fail "some of 60 files are missing"
./estree a.js > /dev/full 2>/dev/null && fail "a full disk goes unnoticed"
exit 0
