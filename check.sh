#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the checker from this directory and decides one property for the
# current tree of /repo. Exit 0: held; 1: VIOLATION; other: error.
here=$(cd "$(dirname "$0")" && pwd)
repo=${DOQ_REPO:-/repo}
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d "${TMPDIR:-/tmp}/gosym.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/gosym" && go build -o "$tmp/gosym" .) || { echo "ERROR the checker does not build"; exit 2; }
"$tmp/gosym" check -verif "$here" -repo "$repo" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
