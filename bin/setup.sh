#!/bin/bash
# warms the build cache; every check builds for itself all the same
set -u
HERE="$(cd "$(dirname "$0")/.." && pwd)"
. "$HERE/bin/env.sh"
cd "$HERE/harness" || exit 1
mkdir -p "$HERE/build"
go build -cover -coverpkg=github.com/matehaxor03/holistic_json/json -o "$HERE/build/warm" . || exit 1
go build -race -gcflags=all=-d=checkptr=0 -o "$HERE/build/warm" . || exit 1
unlink "$HERE/build/warm"
