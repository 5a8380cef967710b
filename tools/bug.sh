#!/bin/bash
# bug.sh ID [--full]: validate a planted bug in a scratch copy of /repo: applies, builds, demo passes/fails,
# (--full) the stable tests pass; then run its property's check against it.
. /opt/vp/env.sh
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/bugXXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cp -a "$d" "$w/lab"; rm -f "$w"/lab/*.diff "$w"/lab/meta.json
cd "$w/repo" || exit 2
git status --short | head -3
timeout 300 bash "$w/lab/demo.sh" >"$w/clean.log" 2>&1; a=$?
git apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 2; }
go build ./... || { echo "$id: DOES NOT BUILD"; exit 2; }
timeout 300 bash "$w/lab/demo.sh" >"$w/bug.log" 2>&1; b=$?
echo "$id: demo clean=$a buggy=$b"
[ $a = 0 ] || tail -20 "$w/clean.log"
[ $b != 0 ] || tail -20 "$w/bug.log"
[ -n "$NOCHECK" ] && exit
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for p in $prop $CHECKS; do
REPO="$w/repo" VERIF_SEED=1 timeout 900 bash /verif/check.sh $p -evidence "$w/ev.json" -replays "$w/rp" > "$w/check.log" 2>&1; c=$?
echo "$id: check $p exit=$c $(grep -m1 VIOLATION "$w/check.log")"; grep -B2 -m3 VIOLATION "$w/check.log" | head -8; tail -1 "$w/check.log"
done
if [ "$2" = --full ]; then bash /verif/tools/tests.sh "$w/repo" "$w/t.json"; fi
