#!/bin/bash
# plant.sh N PATCH [PROPERTY...]: in scratch copy N apply the patch, build, run the tests and the checks, then undo
n=$1; patch=$(realpath $2); shift 2
[ -d /tmp/w/r$n ] || { mkdir -p /tmp/w; cp -a /repo /tmp/w/r$n; }
git -C /tmp/w/r$n checkout -q -- . ; git -C /tmp/w/r$n fetch -q /repo HEAD 2>/dev/null && git -C /tmp/w/r$n reset -q --hard FETCH_HEAD
git -C /tmp/w/r$n apply $patch || exit 9
cp /verif/tools/dev/inner.sh /tmp/w/inner.sh
bash /verif/tools/dev/ns.sh $n bash /tmp/w/inner.sh /tmp/w/res.$n "$@"
git -C /tmp/w/r$n checkout -q -- .
