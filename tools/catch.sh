#!/bin/sh
# Run the owning check against each seeded change, in a copy of /repo: tools/catch.sh [ID...]
cd "$(dirname "$0")/.." || exit 1
[ $# -gt 0 ] || set -- $(ls seeded)
for id; do
  d=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo "$d/repo"; git -C "$d/repo" checkout -q -- .
  git -C "$d/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; rm -rf "$d"; continue; }
  p=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s); VERIF_REPO="$d/repo" python3 check.py "$p" > "$d/log" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -h '^VIOLATION' "$d/log" | sed 's/replay=[^ ]* *//') | $(grep -c '^failed obligation' "$d/log") failed obligations | $(grep -h '^failed obligation' "$d/log" | head -1 | cut -c1-140)"
  rm -rf "$d"
done
