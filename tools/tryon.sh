#!/bin/bash
# tools/tryon.sh BUG [check args...]: apply seeded/BUG to a scratch copy and run its check there (development aid)
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
t=/tmp/tryon.$$; mkdir -p $t; cp -a /repo $t/repo
git -C $t/repo apply $here/seeded/$id/patch.diff || exit 2
prop=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
PBT_REPO=$t/repo VERIF_SEED=${VERIF_SEED:-1} $here/bin/check $prop "$@"; rc=$?
rm -rf -- "$t"; exit $rc
