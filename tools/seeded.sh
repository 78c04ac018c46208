#!/bin/bash
# usage: seeded.sh all|own [ID...]
# Applies each planted bug to /repo in turn, runs all checks (or only that of
# its property) and undoes it. Prints which checks caught it.
cd "$(dirname "$0")/.." || exit 2
mode=$1; shift
[ $# = 0 ] && set -- $(ls seeded)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
    prop=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    props=$prop
    [ "$mode" = all ] && props=$(harness/target/release/harness list | cut -d' ' -f1)
    caught=; broken=
    for p in $props; do
        out=$(VERIF_SEED=${VERIF_SEED:-1} ./check.sh "$p" quick 2>&1); rc=$?
        if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then caught+=" $p"
        elif [ $rc != 0 ]; then broken+=" $p($rc)"; fi
    done
    git -C /repo checkout -q -- .
    echo "$id [$prop] caught by:${caught:- none}${broken:+ errors:$broken}"
done
