#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the explorer from /repo's current
# tree and decides the property. Exit 0: held on everything explored; exit 1:
# violated (VIOLATION line); anything else: no answer.
HERE=$(cd "$(dirname "$0")" && pwd)
PROP=$1
TIER=${2:-quick}
BUDGET=90
[ "$TIER" = thorough ] && BUDGET=${THOROUGH_BUDGET:-780}
S=$(mktemp -d /tmp/wwrmc.XXXXXXXX) || exit 4
trap 'rm -rf "$S"' EXIT
bash "$HERE/build.sh" "$S" "${REPO:-/repo}" >"$S/build.log" 2>&1 || { echo "build of the instrumented tree failed:"; tail -40 "$S/build.log"; exit 3; }
"$S/bin/runner" -prop "$PROP" -tier "$TIER" -budget "$BUDGET" -evidence "$HERE/evidence" -known "$HERE/known_findings.txt"
