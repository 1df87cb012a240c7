#!/bin/bash
# by hand: which sub-check catches each planted bug.  catches.sh OUT [ID...]   (each in a scratch copy of /repo)
out=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
ids=${*:-$(ls "$here/seeded")}
: > "$out"
for id in $ids; do
    w=$(mktemp -d /tmp/catch.XXXXXX)
    cp -a /repo "$w/repo"
    git -C "$w/repo" apply "$here/seeded/$id/patch.diff" || echo "$id does not apply"
    prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")
    r=$(PBT_REPO=$w/repo VERIF_SEED=${VERIF_SEED:-1} "$here/bin/check" "$prop" --tier quick 2>/dev/null | grep -o "^ *FAILED [a-z_]*" | awk '{print $2}' | sort -u | tr '\n' ' ')
    echo "$prop $id ${r:-MISSED}" >> "$out"
    case "$w" in /tmp/catch.*) rm -rf "$w" ;; esac
done
