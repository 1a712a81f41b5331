#!/bin/bash
# seedtest.sh ID...: for each planted bug: baseline build+tests, demo without and
# with the patch, and the property's quick check with the patch (in a copy of /repo)
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/seedtest.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd "$W/repo" && git checkout -q -- . 
  if [ -z "$NODEMO" ]; then ( bash "$d/demo.sh" ) >"$W/clean.out" 2>&1; c=$?; else c=-; fi
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NODEMO" ]; then ( bash "$d/demo.sh" ) >"$W/demo.out" 2>&1; p=$?; else p=-; fi
  if [ -z "$NOCHECK" ]; then
    ( cd "$V"; VMC_REPO=$W/repo VMC_BUILD=$W/build VMC_EVID=$W/ev.json timeout 900 python3 tools/run.py "$prop" --tier quick --evidence $W/ev.json ) >"$W/check.out" 2>&1; k=$?
  else k=-; fi
  echo "$id ($prop): demo clean=$c patched=$p  check=$k  $(grep -m1 'violation candidate' $W/check.out 2>/dev/null | cut -c1-200)"
  [ "$c" = 0 ] || [ "$c" = - ] || tail -5 "$W/clean.out"
  [ "$p" = 1 ] || [ "$p" = - ] || tail -5 "$W/demo.out"
  [ "$k" = 1 ] || [ "$k" = - ] || tail -5 "$W/check.out"
  cd "$W/repo" && git checkout -q -- .
done
