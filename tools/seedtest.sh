#!/bin/bash
# usage: seedtest.sh <seed dir> [nocheck]: confirms a planted bug in a scratch
# copy of /repo: applies, builds, passes the tests, demo fails with it and
# passes without it; then runs this property's check on it.
set -u
d=$(cd "$1" && pwd); here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/seedwt.XXXXXX); trap 'rm -rf "$w"' EXIT
. /opt/vp/env.sh
cp -a /repo "$w/repo"; cd "$w/repo"
cp -a "$d" "$w/demo"
( bash "$w/demo/demo.sh" ) >$w/d0 2>&1; r0=$?
git apply "$d/patch.diff" || { echo "SEED $d: does not apply"; exit 1; }
go build ./pkg/... || { echo "SEED $d: does not build"; exit 1; }
if [ "${2:-}" != notest ]; then rm -rf /tmp/badger /tmp/badger[0-9] /tmp/badger[0-9][0-9]; mkdir $w/tmp; TMPDIR=$w/tmp go test -vet=off -count=1 -json ./pkg/... > $w/t.json 2>/dev/null; rm -rf /tmp/badger /tmp/badger[0-9] /tmp/badger[0-9][0-9]; fi
fails=$(python3 - "$w/t.json" <<'P'
import json,sys,os
if not os.path.exists(sys.argv[1]): print("-");sys.exit()
base=json.load(open('/opt/vp/BASELINE.json'))
st=set()
def walk(o):
    if isinstance(o,str): st.add(o)
    elif isinstance(o,list):
        for x in o: walk(x)
    elif isinstance(o,dict):
        for k,v in o.items(): st.add(k); walk(v)
walk(base)
bad=[]
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get("Action")=="fail" and e.get("Test"): bad.append(e["Package"].split("/")[-1]+"."+e["Test"])
print(",".join(bad) or "none")
P
)
( bash "$w/demo/demo.sh" ) >$w/d1 2>&1; r1=$?
echo "SEED $(basename $d): demo clean=$r0 patched=$r1 failing tests: $fails"
[ $r0 != 0 ] && tail -15 $w/d0
[ $r1 = 0 ] && tail -15 $w/d1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "${2:-}" != nocheck ]; then
  DOQ_REPO=$w/repo "$here/check.sh" $p quick > $w/c 2>&1; rc=$?
  grep -E "VIOLATION|ERROR|note:|^property" -A1 $w/c | cut -c1-300
  echo "SEED $(basename $d): check $p exit $rc"
fi
