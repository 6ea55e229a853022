#!/bin/bash
# Runs the demo page in a stand-in for a browser, through many short histories.
here=$(cd "$(dirname "$0")" && pwd)
out=$(timeout 200 node "$here/page.js" "$PWD/web/parser/index.html" < "$here/jobs") || exit 2
echo "$out" | cut -c1-600
[ "$(wc -l <<<"$out")" -ge 4 ] || exit 2
! grep -q '"violation":"[^"]' <<<"$out" && ! grep -q '"failed":"[^"]' <<<"$out"
