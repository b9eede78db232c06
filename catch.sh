#!/bin/bash
# catch.sh [ID...]: development aid, not a check. Applies each seeded change (all, or those given)
# to /repo, runs the check of its property (or the checks in $CHECKS) and undoes the change.
cd "$(dirname "$0")" || exit 2
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in $( [ $# -gt 0 ] && printf 'seeded/%s\n' "$@" || ls -d seeded/*); do
  p=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    out=$(timeout 900 ./run.sh "$c" 2>&1); rc=$?
    if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then r=caught; elif [ $rc -eq 0 ]; then r=MISSED; else r="rc=$rc"; fi
    echo "$(basename "$d") $c $r $(grep -m1 '^VIOLATION' <<<"$out" | cut -c1-200)"
  done
  git -C /repo checkout -q -- .
done
