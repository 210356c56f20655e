#!/bin/bash
# mk.sh ID PROP NEEDS BREAKS : /repo has the change in its working tree, demo.rs in /verif/seeded/ID
id=$1; d=/verif/seeded/$id; mkdir -p $d
[ -f $d/demo.sh ] || cp /tmp/bugs/demo.sh $d/demo.sh
[ -f $d/demo.rs ] && cp /tmp/bugs/demo.lock $d/demo.lock
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cd /repo
bash /tmp/t.sh | tail -1 | tee /tmp/bugs/res; grep -q "missing \[\]" /tmp/bugs/res || { echo "TESTS FAIL"; grep -h "FAILED\|panicked\|^error" /tmp/t.log /tmp/b.log | head; git checkout -q -- .; exit 1; }
bash $d/demo.sh >/tmp/bugs/demo.bad 2>&1; bad=$?
git checkout -q -- .
bash $d/demo.sh >/tmp/bugs/demo.good 2>&1; good=$?
echo "demo: with patch $bad, without $good"
[ $bad -ne 0 -a $good -eq 0 ] || { tail -20 /tmp/bugs/demo.bad; echo ---; tail -20 /tmp/bugs/demo.good; exit 1; }
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
tail -3 /tmp/bugs/demo.bad
