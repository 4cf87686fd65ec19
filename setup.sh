#!/bin/bash
# Builds the checker once, as a smoke test (checks rebuild it themselves).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d "${TMPDIR:-/tmp}/gosym.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/gosym" && go build -o "$tmp/gosym" . && cvc5 --version | head -1 && z3-new --version
