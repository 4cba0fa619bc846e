#!/bin/bash
# Usage: seedtest.sh <seed id> [notest] [check ...]
# Confirms a planted bug in a scratch copy of /repo: it builds, the stable tests pass, demo.sh passes without and
# fails with it; then runs the checks named (default: that of its property) against the copy.
# Writes nothing in /repo or /verif.
id=$1; shift
V=/verif
S=$V/seeded/$id
. /opt/vp/env.sh
export CGO_ENABLED=0
W=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
cp -a "$S" "$W/demo"; find "$W/demo" -name '*.diff' -delete
cd "$W/repo" || exit 2
notest=; [ "$1" = notest ] && { notest=1; shift; }
timeout 300 bash "$W/demo/demo.sh" >"$W/clean.log" 2>&1; rc=$?
[ $rc = 0 ] || { echo "$id: the demo fails on the unchanged tree"; tail -20 "$W/clean.log"; exit 1; }
git apply "$S/patch.diff" || { echo "$id: does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" >"$W/bug.log" 2>&1; rc=$?
[ $rc != 0 ] || { echo "$id: the demo passes with the bug"; exit 1; }
grep -q "build failed\|setup failed" "$W/bug.log" && { echo "$id: the demo does not build"; cat "$W/bug.log"; exit 1; }
if [ -z "$notest" ]; then
  go test -json -vet=off -count=1 -timeout 10m $(go list ./... | grep -vx github.com/fadhilkurnia/shamir) >"$W/go.json" 2>/dev/null
  python3 /opt/vp/results.py "$W/out.json" "gojson:$W/go.json" >/dev/null
  python3 - "$W/out.json" "$id" <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=json.load(open(sys.argv[1]))
p=set(o.get('passed') or [k for k,v in o.get('tests',o).items() if v in('pass','passed')])
m=b-p
if m: print(sys.argv[2]+': stable tests fail:',sorted(m)); sys.exit(1)
P
fi
[ $# = 0 ] && set -- "$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")"
mkdir -p "$W/v"; cp $V/KNOWN_FINDINGS.txt "$W/v/"
for c in "$@"; do
  t=$(date +%s)
  $V/bin/verif check "$c" --repo="$W/repo" --verif="$W/v" >"$W/check.log" 2>&1; rc=$?
  t=$(($(date +%s)-t))
  case $rc in
  1) echo "$id: caught by $c in ${t}s: $(grep -m1 ^VIOLATION "$W/check.log" | cut -c1-200) $(grep -v "^VIOLATION" "$W/check.log" | grep -m1 -i "violat\|what\|fails" | cut -c1-160)" ;;
  0) echo "$id: MISSED by $c in ${t}s: $(tail -1 "$W/check.log" | cut -c1-200)" ;;
  *) echo "$id: $c gave rc $rc: $(tail -3 "$W/check.log" | cut -c1-300)" ;;
  esac
done
