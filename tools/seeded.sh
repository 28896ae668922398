#!/bin/bash
# Runs the checks against planted changes, one after another, and undoes each of them.
#
#   seeded.sh [--all] [ID...]     --all: every check, not only the one of the property
cd "$(dirname "$0")/.." || exit 3
all=0; [ "${1:-}" = --all ] && { all=1; shift; }
[ $# -eq 0 ] && set -- $(ls seeded)
git -C /repo diff --quiet || { echo "/repo is not clean" >&2; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    own=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
    props=$own; [ $all = 1 ] && props="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 N01"
    line="$id:"
    for p in $props; do
        out=$(VERIF_TIER=quick VERIF_SEED=${VERIF_SEED:-1} ./check.sh $p 2>/tmp/seeded.err); rc=$?
        if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then line+=" $p=caught"; elif [ $rc = 0 ]; then [ $p = "$own" ] && line+=" $p=MISSED"; else line+=" $p=rc$rc"; fi
    done
    echo "$line"
    git -C /repo checkout -q -- .
done
