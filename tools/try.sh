#!/bin/bash
# try.sh SEED-ID [PROPERTY]: run the check of a planted bug's property against a scratch copy with the bug
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
w=/tmp/w/try.$id
[ -d $w ] || { mkdir -p $w; git -C /repo archive HEAD | tar -x -C $w; cp /repo/Cargo.lock $w/; git -C $w init -q 2>/dev/null; }
(cd $w && git apply $V/seeded/$id/patch.diff) || exit 9
XV_REPO=$w $V/check $p quick | cut -c1-300 | tail -${3:-8}
echo "[$id $p rc=${PIPESTATUS[0]}]"
find $w -delete
