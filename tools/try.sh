#!/bin/bash
# Development aid: try.sh SEEDED-ID [CHECK...]: applies a planted bug to /repo, runs the checks
# (default: the bug's property), and undoes it.
V="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; shift
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply "$V/seeded/$id/patch.diff" || exit 2
[ $# = 0 ] && set -- "$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")"
for c in "$@"; do
    out="$(bash "$V/check.sh" "$c" quick 2>&1)"; rc=$?
    if [ $rc = 1 ]; then echo "$id $c CAUGHT: $(echo "$out" | grep -v KNOWN | tail -4 | cut -c1-300)"; elif [ $rc = 0 ]; then echo "$id $c missed"; else echo "$id $c ERROR $rc $out"; fi
done
