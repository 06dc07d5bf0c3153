#!/bin/bash
# check.sh ID [quick|thorough]: decides one property against /repo's current tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
profile=dev dir=debug
# unoptimised, for what the property says about stack use
[ "$id" = C24 ] && profile=plain dir=plain
bash "$here/build.sh" $profile || exit 2
ulimit -c 0
ulimit -v 14000000
mkdir -p "$here/evidence" "$here/work"
exec "$here/target/$dir/vh" check "$id" --tier "$tier" --seed "$seed" --verif "$here"
