#!/bin/bash
# Development aid: trycopy.sh DIR [ID...]: runs planted bugs (default: all) against their property's quick check,
# in a copy of the committed /repo and of /verif under DIR, so that neither is touched. PART=k/n takes every nth only.
V="$(cd "$(dirname "$0")/.." && pwd)"
D="$1"; shift
mkdir -p "$D/verif"
export VH_REPO="$D/repo"
[ -d "$D/repo" ] || git clone -q /repo "$D/repo"
git -C "$D/repo" fetch -q /repo HEAD && git -C "$D/repo" checkout -q -f FETCH_HEAD
rsync -a --delete --exclude target --exclude seeded --exclude work --exclude evidence --exclude .git "$V/" "$D/verif/"
sed -i "s#/repo#$D/repo#g" "$D/verif/harness/Cargo.toml" "$D/verif/build.sh"
[ $# = 0 ] && set -- $(ls "$V/seeded")
k="${PART%/*}" n="${PART#*/}" i=0
for id in "$@"; do
    i=$((i + 1))
    [ -n "$PART" ] && [ $((i % n)) != "$k" ] && continue
    git -C "$D/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
    c="$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")"
    s=$SECONDS
    out="$(bash "$D/verif/check.sh" "$c" quick 2>&1)"; rc=$?
    case $rc in 1) r="CAUGHT: $(echo "$out" | grep VIOLATION -A2 | tail -3 | tr '\n' ' ' | cut -c1-220)";; 0) r=missed;; *) r="ERROR $rc $(echo "$out" | tail -3 | cut -c1-300)";; esac
    echo "$id $c $((SECONDS - s))s $r"
    git -C "$D/repo" checkout -q -f .
done
