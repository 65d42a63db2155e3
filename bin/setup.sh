#!/bin/bash
# Checks that the simulator builds offline from the committed files and runs.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
B=$(mktemp -d /tmp/mksim-build.XXXXXX) || exit 2
trap 'case "$B" in /tmp/mksim-build.*) rm -rf "$B";; esac' EXIT
"$here/bin/build.sh" "$B" || exit 1
"$B/mksim" try C01 3 >/dev/null || exit 1
echo "the simulator builds and runs"
