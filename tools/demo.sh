#!/bin/bash
# Runs the demonstration test beside this script against the code in the
# current directory: exit 0 if it passes.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
pkg=$(sed -n 's|^// pkg: ||p' "$here/demo_test.go")
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go"}}' "$repo" "$pkg" "$here" > "$t/overlay.json"
mkdir "$t/tmp"
TMPDIR="$t/tmp" go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run 'TestZZDemo' "./$pkg"
