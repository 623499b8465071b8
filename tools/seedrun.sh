#!/bin/bash
# seedrun.sh ID...: runs the registered check of each planted bug's property with the bug applied to a
# scratch copy (gover -repo), and reports whether it is caught.
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/srunXXXXXX)
  cp -a /repo "$w/repo"
  git -C "$w/repo" apply "$d/patch.diff" || echo "$id: patch does not apply"
  timeout 880 /tmp/gover -prop $p -repo "$w/repo" -verif /verif > "$w/out" 2>&1; rc=$?
  echo "$id ($p): exit $rc $(grep -m1 VIOLATION "$w/out") $(grep -m1 'FAILED' "$w/out" | cut -c1-200)"
  rm -rf "$w"
done
