#!/bin/bash
# run.sh PROPERTY [quick|thorough]   build from /repo's working tree and check
# run.sh replay FILE                 build and execute a replay file
# run.sh warm                        build everything once
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1 LC_ALL=C
unset GOGC GOMEMLIMIT GODEBUG GORACE GOEXPERIMENT GOMAXPROCS 2>/dev/null
PATH=$PATH:/usr/local/go/bin:/usr/lib/go/bin
: "${GOCACHE:=$HOME/.cache/go-build}"
if ! mkdir -p "$GOCACHE" 2>/dev/null || ! [ -w "$GOCACHE" ]; then GOCACHE=$V/.build/gocache; mkdir -p "$GOCACHE"; fi
export GOCACHE
mkdir -p "$V/.build" "$V/evidence" "$V/replays" || exit 2
SEED=${VERIF_SEED:-1}

# build DIR WANT_RACE: binaries DIR/simcheck and DIR/simcheck-race
build() {
	local d=$1 race=$2
	rm -rf "$d"; mkdir -p "$d/src" || return 1
	cp -r "$V/sim/simrt" "$V/sim/harness" "$d/src/" || return 1
	(cd "$V/sim/instrument" && go build -o "$d/instrument" .) || return 1
	"$d/instrument" "$REPO" "$d/src/linear" >"$d/instrument.log" || { cat "$d/instrument.log" >&2; return 1; }
	(cd "$d/src/harness" && go mod edit -replace verifsimrt=../simrt -replace github.com/jtejido/linear=../linear) || return 1
	local pid=
	if [ "$race" = 1 ]; then
		(cd "$d/src/harness" && go build -race -o "$d/simcheck-race" .) & pid=$!
	fi
	(cd "$d/src/harness" && go build -o "$d/simcheck" .) || { [ -n "$pid" ] && wait $pid; return 1; }
	if [ -n "$pid" ]; then wait $pid || return 1; fi
	rm -rf "$d/src"
	return 0
}

case "${1:-}" in
warm)
	build "$V/.build/warm" 1 || { echo "build failed" >&2; exit 2; }
	"$V/.build/warm/simcheck" info && "$V/.build/warm/simcheck-race" info
	rm -rf "$V/.build/warm"
	exit 0 ;;
replay)
	d=$V/.build/replay.$$
	trap 'rm -rf "$d"' EXIT
	race=0; grep -q '"build": "race"' "$2" && race=1
	build "$d" $race || { echo "build failed" >&2; exit 2; }
	"$d/simcheck" replay -file "$2" -rbin "$d/simcheck-race"
	exit $? ;;
C[0-9]*)
	p=$1; tier=${2:-${VERIF_TIER:-quick}}
	d=$V/.build/$p.$$
	trap 'rm -rf "$d"' EXIT
	trap 'exit 2' INT TERM
	rm -f "$V/evidence/$p.json"
	race=0
	case $p in C07|C08|C09|C1[0-9]) [ $p != C14 ] && [ $p != C18 ] && race=1 ;; esac
	build "$d" $race || { echo "build failed" >&2; exit 2; }
	rb=; [ $race = 1 ] && rb=$d/simcheck-race
	"$d/simcheck" check -prop "$p" -tier "$tier" -seed "$SEED" -rbin "$rb" -evidence "$V/evidence/$p.json" -known "$V/known_findings.txt" -replays "$V/replays"
	exit $? ;;
*)
	echo "usage: run.sh PROPERTY [quick|thorough] | replay FILE | warm" >&2; exit 2 ;;
esac
