#!/bin/bash
# seedcheck.sh ID [notests]: confirms a planted bug in a scratch copy of /repo:
# demo passes unchanged; patch applies, builds, keeps the stable tests; demo fails with it.
id=$1; d=/verif/seeded/$id
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1
w=$(mktemp -d /tmp/seedXXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/demo"; cp "$d"/* "$w/demo/"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
cd "$w/repo" || exit 1
timeout 300 bash "$w/demo/demo.sh" > "$w/o1" 2>&1; r1=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... 2> "$w/b" || { echo "$id: does not build"; cat "$w/b"; exit 1; }
timeout 300 bash "$w/demo/demo.sh" > "$w/o2" 2>&1; r2=$?
bad=skipped
if [ -z "$2" ]; then
rm -rf node/tmp
go test -json -vet=off -count=1 -timeout 10m ./... > "$w/test.json" 2>/dev/null
python3 /opt/vp/results.py "$w/res.json" "gojson:$w/test.json" >/dev/null
bad=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=json.load(open('$w/res.json'))['passed']
print([x for x in b if x not in p])")
fi
ok=BAD; [ $r1 = 0 ] && [ $r2 != 0 ] && { [ "$bad" = "[]" ] || [ -n "$2" ]; } && ok=OK
echo "$id: $ok demo unchanged=$r1 patched=$r2 stable tests failing=$bad"
[ $r1 != 0 ] && tail -5 "$w/o1"
[ $ok = OK ] && grep -m3 -E "FAIL|panic" "$w/o2"
