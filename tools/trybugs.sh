#!/bin/bash
# usage: trybugs.sh SEED[:PROP]... : runs the quick check of the seed's property (or PROP)
# against a copy of /repo with the seed applied
v=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/trybugs.XXXXXX)
trap 'rm -rf "$w"' EXIT
git -C /repo archive HEAD | tar -x -C "$w"
git -C "$w" init -q; git -C "$w" add -A; git -C "$w" -c user.name=x -c user.email=x@x commit -qm base
for a in "$@"; do
  id=${a%%:*}; d=$v/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ "$a" != "$id" ] && p=${a#*:}
  git -C "$w" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(cd "$v" && VF_REPO=$w timeout 900 bin/check "$p" quick 2>&1); rc=$?
  git -C "$w" checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION -B5 | head -1)"
done
