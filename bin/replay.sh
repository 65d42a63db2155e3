#!/bin/bash
# replay.sh FILE: performs a recorded execution again on /repo's current tree (exit 1: it shows the violation).
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
f=$(readlink -f "$1")
B=$(mktemp -d /tmp/mksim-build.XXXXXX) || exit 2
trap 'case "$B" in /tmp/mksim-build.*) rm -rf "$B";; esac' EXIT
race=
grep -q '"class": "race"' "$f" && race=race
"$here/bin/build.sh" "$B" $race || exit 2
"$B/mksim" replay "$f"
exit $?
