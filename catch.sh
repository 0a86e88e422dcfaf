#!/bin/bash
# catch.sh BUG [CHECK...]: applies a planted bug to /repo, runs the check of its property (or the given ones), undoes it.
V=$(cd "$(dirname "$0")" && pwd); S=$V/seeded/$1; B=$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
C="$*"; [ -n "$C" ] || C=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply "$S/patch.diff" || exit 2
for c in $C; do
 s=$(date +%s); timeout 900 "$V/check.sh" $c quick >/tmp/pl/$B.$c.out 2>&1; rc=$?
 echo "$B $c rc=$rc $(( $(date +%s)-s ))s $(grep -E '^violated' /tmp/pl/$B.$c.out | head -1 | cut -c1-170) $(grep 'set aside' /tmp/pl/$B.$c.out | head -3 | cut -c1-130)"
done
