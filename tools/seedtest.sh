#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in a scratch copy and runs their check
cd "$(dirname "$0")/.."
for id in "$@"; do
  s=$PWD/seeded/$id
  d=/tmp/seed_$id
  rm -rf "/tmp/seed_$id"
  tools/sut.sh "$d"
  prop=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
  (cd "$d/repo" && timeout 300 bash "$s/demo.sh" >"$d/demo0.log" 2>&1); a=$?
  (cd "$d/repo" && git apply --unsafe-paths --directory="$d/repo" "$s/patch.diff" 2>/dev/null || patch -s -p1 -d "$d/repo" <"$s/patch.diff"); p=$?
  (cd "$d/repo" && timeout 300 bash "$s/demo.sh" >"$d/demo1.log" 2>&1); b=$?
  if [ -z "$NOTEST" ]; then tools/suttest.sh "$d"; t=$?; else t=-; fi
  c=-
  for q in ${CHECKS:-$prop}; do
    if [ -f rv/props/${q,,}.py ]; then
      RV_REPO=$d/repo RV_EVIDENCE=$d bin/check $q --tier quick >"$d/check.$q.log" 2>&1; c="$c $q=$?"
    fi
  done
  echo "$id prop=$prop clean_demo=$a patch=$p patched_demo=$b tests=$t check: $c"
  [ -n "$KEEP" ] || rm -rf "/tmp/seed_$id"
done
