#!/bin/bash
# Builds the simulator against /repo's current tree into directory $1; with a second argument "race" also the build
# with the race detector (only the code under test is watched, not the simulator).
set -u
B=$1
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
cd "$here/sim" || exit 2
if ! (cd /repo && GOFLAGS="-mod=mod -modfile=$B/repo.mod" && export GOFLAGS && cp go.mod "$B/repo.mod" && cp "$here/sim/go.sum" "$B/repo.sum" && go build ./mkrlwe ./mkckks ./mkbfv ./cnn) 2>"$B/err"; then
	echo "build.sh: /repo does not build" >&2
	cat "$B/err" >&2
	exit 2
fi
go build -o "$B/instr" ./cmd/instr || exit 2
# A copy of lattigo with preemption points for scheduled threads. Should it not compile, the original is used.
plain=$GOFLAGS
L=$here/.build/lattigo-$(cat cmd/instr/main.go go.mod | sha256sum | cut -c1-16)
if [ ! -d "$L" ]; then
	mkdir -p "$here/.build"
	rm -rf "$B/lattigo"
	"$B/instr" -lattigo "$(go list -m -f '{{.Dir}}' github.com/ldsec/lattigo/v2)" "$B/lattigo" >"$B/err" 2>&1 &&
		cp -r "$B/lattigo" "$L.$$" && { mv -T "$L.$$" "$L" 2>/dev/null || rm -rf "$L.$$"; }
	rm -rf "$B/lattigo"
fi
if [ -d "$L" ]; then
	cp go.mod "$B/sim.mod" && cp go.sum "$B/sim.sum" && echo "replace github.com/ldsec/lattigo/v2 => $L" >>"$B/sim.mod"
	export GOFLAGS="$plain -modfile=$B/sim.mod"
	if ! go build ./simhook github.com/ldsec/lattigo/v2/ckks github.com/ldsec/lattigo/v2/bfv 2>"$B/err"; then
		echo "build.sh: lattigo without preemption points" >&2
		cat "$B/err" >&2
		export GOFLAGS=$plain
	fi
fi
# The copies with yield points are an overlay. Should one of them not compile, its original is used.
skip=()
for try in 1 2 3 4 5 6; do
	if "$B/instr" "$B" "${skip[@]}" 2>"$B/err" && go build -overlay "$B/overlay.json" -o "$B/mksim" ./cmd/mksim 2>"$B/err"; then
		if [ "${2:-}" = race ]; then
			go build -race '-gcflags=mksim/...=-race=false' -overlay "$B/overlay.json" -o "$B/mksim-race" ./cmd/mksim 2>"$B/err" || {
				echo "build.sh: no build with the race detector" >&2
				cat "$B/err" >&2
				rm -f "$B/mksim-race"
			}
		fi
		exit 0
	fi
	bad=$(grep -oE '/repo/[^: ]*\.go' "$B/err" | sort -u)
	[ -z "$bad" ] && break
	for f in $bad; do skip+=("$f"); done
done
cat "$B/err" >&2
echo "build.sh: falling back to a build without yield points" >&2
go build -o "$B/mksim" ./cmd/mksim && exit 0
exit 2
