#!/bin/bash
# refcheck.sh TREE [CHECK...]: applies tools/refactored/TREE.diff (a rewriting of the
# code that keeps its behaviour) to a copy of /repo, runs the tests and then the checks
# against the copy. Every check has to stay quiet.
here=$(cd "$(dirname "$0")" && pwd)
t=${1:?}; shift
[ $# = 0 ] && set -- $(cd "$here/../rv/props" && ls c[0-9][0-9].py | sed 's/\.py//' | tr c C)
w=$(mktemp -d /tmp/refcheck.XXXXXX); trap 'rm -rf "$w"' EXIT
"$here/sut.sh" "$w" && (cd "$w/repo" && patch -s -p1 < "$here/refactored/$t.diff") || exit 2
[ -n "$NOTEST" ] || "$here/suttest.sh" "$w" || { echo "$t: tests fail"; exit 2; }
mkdir -p "$w/ev"
for c in "$@"; do
    o=$(RV_REPO="$w/repo" RV_EVIDENCE="$w/ev" "$here/../bin/check" "$c" 2>&1) || { echo "$t $c ALARM"; echo "$o" | tail -5 | cut -c1-500; bad=1; }
done
echo "$t done"; exit ${bad:-0}
