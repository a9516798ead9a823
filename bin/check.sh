#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the harness and the package from
# /repo's working tree and decides one property. Exit 0 held, 1 violated.
set -u
HERE="$(cd "$(dirname "$0")/.." && pwd)"
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
. "$HERE/bin/env.sh"
WORK="$HERE/build/$ID.$$"
mkdir -p "$WORK"
trap 'find "$WORK" -mindepth 1 -delete; rmdir "$WORK"' EXIT
FLAGS=(-cover -coverpkg=hjcheck,github.com/matehaxor03/holistic_json/json)
case "$ID" in C15) FLAGS=(-race -gcflags=all=-d=checkptr=0) ;; esac
cd "$HERE/harness" || exit 2
if ! go build "${FLAGS[@]}" -o "$WORK/hjcheck" . >"$WORK/build.log" 2>&1; then
	cat "$WORK/build.log"
	echo "check $ID: the harness does not build against /repo"
	exit 2
fi
mkdir -p "$WORK/supervisor"
export HJ_VERIF="$HERE" TMPDIR="$WORK" GOCOVERDIR="$WORK/supervisor"
"$WORK/hjcheck" run -prop "$ID" -tier "$TIER" -seed "$SEED"
exit $?
