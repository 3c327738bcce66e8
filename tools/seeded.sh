#!/bin/bash
# seeded.sh [id...]   apply each seeded bug to /repo, run its property's check
# (or those in $CHECKS) and undo it. Prints one line per bug and check.
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean" >&2; exit 2; }
for d in ${@:-$(ls seeded)}; do
    prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$d/meta.json")
    git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
    for c in ${CHECKS:-$prop}; do
        start=$(date +%s)
        out=$(./check.sh "$c" "${TIER:-quick}" 2>&1)
        rc=$?
        if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then res=caught; else res="missed rc=$rc"; fi
        echo "$d $prop: $c $res $(($(date +%s) - start))s"
        [ "${V:-}" ] && tail -8 <<<"$out" | cut -c1-500
    done
    git -C /repo checkout -q -- .
    git clean -qfd replays
done
