#!/bin/bash
# Builds ./demo.cpp against the tree in the current directory (with the shim and
# runtime beside this file) and runs it: 0 = behaves, 1 = broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export VMC_REPO=$PWD VMC_BUILD=$T/build PYTHONDONTWRITEBYTECODE=1
python3 "$D/fw/tools/build.py" demo @VARIANT@ || exit 98
timeout 200 "$T/build/@VARIANT@/demo" --tier quick --evidence "$T/ev.json" @ARGS@
rc=$?
[ $rc -eq 0 ] || exit 1
