#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree.
set -u
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")/.." && pwd)
B=$(mktemp -d /tmp/mksim-build.XXXXXX) || exit 2
trap 'case "$B" in /tmp/mksim-build.*) rm -rf "$B";; esac' EXIT
race=
[ "$prop" = C06 ] && race=race
"$here/bin/build.sh" "$B" $race || exit 2
export MKSIM_KNOWN=$here/known-findings.json VERIF_SEED=${VERIF_SEED:-1}
mkdir -p "$here/evidence"
"$B/mksim" check "$prop" "$tier" "$here/evidence"
rc=$?
exit $rc
