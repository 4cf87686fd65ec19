#!/bin/bash
# usage: replay.sh <replay file>: runs a reported counterexample against the
# compiled code of /repo (exit 1 if it still fails).
here=$(cd "$(dirname "$0")" && pwd)
repo=${DOQ_REPO:-/repo}
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d "${TMPDIR:-/tmp}/gosym.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/gosym" && go build -o "$tmp/gosym" .) || exit 2
"$tmp/gosym" replay -verif "$here" -repo "$repo" "$1"
