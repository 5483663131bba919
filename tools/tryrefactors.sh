#!/bin/bash
# usage: tryrefactors.sh DIFF[:PROP,PROP...]... : the quick checks must stay quiet on a copy of
# /repo with a behaviour-preserving change applied. Without properties, all checks are run.
v=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/tryref.XXXXXX)
trap 'rm -rf "$w"' EXIT
git -C /repo archive HEAD | tar -x -C "$w"
git -C "$w" init -q; git -C "$w" add -A; git -C "$w" -c user.name=x -c user.email=x@x commit -qm base
for a in "$@"; do
  id=${a%%:*}
  ps=$(python3 -c "import json;print(*[c['property'] if 'property' in c else c['property_id'] for c in json.load(open('$v/MANIFEST.json'))['checks']])")
  [ "$a" != "$id" ] && ps=$(echo "${a#*:}" | tr , ' ')
  git -C "$w" apply "$v/tools/refactors/$id.diff" || { echo "$id: does not apply"; continue; }
  for p in $ps; do
    s=$(date +%s)
    out=$(cd "$v" && VF_REPO=$w timeout 900 bin/check "$p" quick 2>&1); rc=$?
    echo "$id $p rc=$rc $(( $(date +%s)-s ))s $([ $rc != 0 ] && echo "$out" | tail -8)"
  done
  git -C "$w" checkout -q -- .; git -C "$w" clean -fdq
done
