#!/bin/bash
# chk.sh BUG CHECK... : run checks with the bug applied
b=$1; shift
git -C /repo apply /verif/seeded/$b/patch.diff || exit 1
cd /verif
for c in "$@"; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $c > /tmp/bugs/out.$b.$c 2>&1; echo "$b $c exit $? $(grep -c ^VIOLATION /tmp/bugs/out.$b.$c) $(grep '^----' /tmp/bugs/out.$b.$c | head -2 | tr '\n' ' ')"; done
git -C /repo checkout -q -- .
