#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Builds the analyser and decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 1
V=$(pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
B=$(mktemp -d "${TMPDIR:-/tmp}/mutecheck.XXXXXX") || exit 1
trap 'rm -rf -- "$B"' EXIT
fail() {
	mkdir -p "$V/evidence"
	echo "$2" > "$V/evidence/$1.replay.txt"
	printf '{"property":"%s","tier":"%s","seed":%s,"level":"other","coverage":{"explanation":"no verdict: the analyser could not be built"},"wall_s":0,"violations":1}\n' "$1" "$3" "${VERIF_SEED:-0}" > "$V/evidence/$1.json"
	echo "$2"
	echo "VIOLATION property=$1 replay=$V/evidence/$1.replay.txt"
	exit 1
}
# the analyser as setup built it, rebuilt here only if it is missing or older than its source
BIN="$V/bin/mutecheck"
if [ ! -x "$BIN" ] || [ -n "$(find checker -newer "$BIN" -type f 2>/dev/null | head -1)" ]; then
	BIN="$B/mutecheck"
	out=$(cd checker && go build -o "$BIN" . 2>&1) || fail "$1" "$out" "${2:-quick}"
fi
export GOFLAGS=
"$BIN" -property "$1" -tier "${2:-quick}" -repo /repo -verif "$V"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] && exit $rc
fail "$1" "the analyser ended with status $rc" "${2:-quick}"
