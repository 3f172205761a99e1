#!/bin/bash
# seedrun.sh [ID...]: run each seeded bug's property check against a scratch copy of /repo with the patch.
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# = 0 ] && set -- $(ls "$here/seeded")
for id in "$@"; do
  d=$here/seeded/$id; [ -f "$d/patch.diff" ] || continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d); cp -a /repo "$t/repo"
  if ! git -C "$t/repo" apply "$d/patch.diff"; then echo "$id $p PATCH-FAILS"; rm -rf "$t"; continue; fi
  s=$(date +%s)
  VERIF_REPO=$t/repo VERIF_OUT=$t "$here/check.sh" "$p" >"$t/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^VIOLATION' "$t/out" | cut -c1-150) | $(grep -m1 'failed obligation' "$t/out" | cut -c1-140)"
  rm -rf "$t"
done
