#!/bin/bash
# detect.sh ID...: applies each planted bug to /repo, runs the quick check of
# its property, and undoes it.
verif=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    prop=$(python3 -c "import json; print(json.load(open('$verif/seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    start=$(date +%s)
    out=$(cd "$verif" && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check "$prop" 2>&1)
    r=$?
    git -C /repo checkout -q -- .
    line=$(grep -m1 "^VIOLATION property=$prop " <<< "$out")
    if [ $r = 1 ] && [ -n "$line" ]; then
        echo "$id: caught by $prop in $(($(date +%s) - start)) s: $(echo "$line" | cut -c1-200)"
    else
        echo "$id: MISSED by $prop (exit $r, $(($(date +%s) - start)) s)"
        tail -3 <<< "$out"
    fi
done
