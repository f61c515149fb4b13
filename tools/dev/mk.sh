#!/bin/bash
# mk.sh ID PROPERTY MODULE CASE PATCH needs breaks: build the seed and confirm that its demo fails with the patch
python3-vt /verif/tools/mkseed.py "$@" || exit 1
n=${N:-1}
git -C /tmp/w/r$n checkout -q -- . ; git -C /tmp/w/r$n apply $5 || exit 1
bash /verif/tools/dev/ns.sh $n bash -c "bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo; bash /verif/seeded/$1/demo.sh > /tmp/w/demo.out 2>&1; echo with patch: \$?; tail -3 /tmp/w/demo.out"
git -C /tmp/w/r$n checkout -q -- .
