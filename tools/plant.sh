#!/bin/bash
# Developer helper: plant.sh ID [CHECK...]: validates /verif/seeded/ID against /repo and runs the checks with the bug in place.
# Leaves /repo as it was. NOTEST=1 skips the repository's own tests.
id=$1; shift; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
checks=${*:-$prop}
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
s=$(mktemp -d); cp $d/demo.sh $s/; for f in $d/*; do case $f in *.diff|*.patch|*meta.json) ;; *) cp -r $f $s/;; esac; done
if [ -z "$NODEMO" ]; then (cd /repo && bash $s/demo.sh >/tmp/w/$id.demo0 2>&1); r0=$?; fi
git -C /repo apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
if [ -z "$NODEMO" ]; then (cd /repo && bash $s/demo.sh >/tmp/w/$id.demo1 2>&1); r1=$?; echo "$id demo: clean=$r0 bug=$r1"; fi
if [ -z "$NOTEST" ]; then
 bash /opt/vp/test.sh /tmp/w/$id.json >/tmp/w/$id.testlog 2>&1
 python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/w/$id.json'))
p={x if isinstance(x,str) else x.get('name') for x in r.get('passed',r.get('pass',[]))}
print('$id tests: missing',sorted(set(b['stable'])-p)[:5])
P
fi
for c in $checks; do
 t0=$(date +%s); /verif/bin/check.sh $c quick >/tmp/w/$id.$c.log 2>&1; rc=$?
 echo "$id check $c: rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 -E 'VIOLATION' /tmp/w/$id.$c.log)"
done
