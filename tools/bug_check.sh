#!/bin/bash
# bug_check.sh ID...: does a planted bug count? In a scratch copy of /repo:
# the demonstration passes, the patch applies, everything builds, the stable
# tests pass, and the demonstration fails.
verif=$(cd "$(dirname "$0")/.." && pwd)
work=$(mktemp -d /tmp/bugcheck.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -a /repo "$work/repo"
sed "s#/repo#$work/repo#g; s#/opt/vp/logs#$work/logs#g" /opt/vp/build.sh > "$work/build.sh"
sed "s#/repo#$work/repo#g; s#/opt/vp/logs#$work/logs#g" /opt/vp/test.sh > "$work/test.sh"
rc=0
for id in "$@"; do
    git -C "$work/repo" checkout -q -- . && git -C "$work/repo" clean -qfd
    rm -rf "$work/seeded" && cp -a "$verif/seeded/$id" "$work/seeded" && rm -f "$work/seeded/patch.diff" "$work/seeded/meta.json"
    if [ -z "$SKIP_CLEAN" ]; then
        bash "$work/build.sh" > "$work/build.log" 2>&1 || { echo "$id: clean tree does not build"; rc=1; continue; }
        (cd "$work/repo" && timeout 300 bash "$work/seeded/demo.sh") > "$work/demo0.log" 2>&1
        r=$?
        [ $r = 0 ] || { echo "$id: demo exits $r on the clean tree"; tail -5 "$work/demo0.log"; rc=1; continue; }
    fi
    git -C "$work/repo" apply "$verif/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rc=1; continue; }
    bash "$work/build.sh" > "$work/build.log" 2>&1 || { echo "$id: does not build"; grep -m3 -A5 '^error' "$work/build.log"; rc=1; continue; }
    bash "$work/test.sh" "$work/out.json" > "$work/test.log" 2>&1
    missing=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$work/out.json'))
print(*[t for t in b if t not in o['passed']])")
    [ -z "$missing" ] || { echo "$id: tests fail: $missing"; rc=1; continue; }
    (cd "$work/repo" && timeout 300 bash "$work/seeded/demo.sh") > "$work/demo1.log" 2>&1
    r=$?
    [ $r != 0 ] && [ $r != 124 ] || { echo "$id: demo exits $r with the patch"; tail -5 "$work/demo1.log"; rc=1; continue; }
    echo "$id: counts (demo exits $r: $(tail -1 "$work/demo1.log" | cut -c1-150))"
done
exit $rc
