#!/bin/bash
# in slot: ctl.sh DIFF [IDS]
d=$1; shift
python3 /tmp/w/chachafix.py /repo 2>/dev/null
git -C /repo apply $d || exit 9
bash bin/build.sh >/tmp/w/ctl.build.log 2>&1 || { tail /tmp/w/ctl.build.log; exit 8; }
for c in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16}; do
  t=$(date +%s); bash bin/check.sh $c quick >/tmp/w/ctl.$c.log 2>&1; rc=$?
  echo "$c rc=$rc $(( $(date +%s)-t ))s $(grep -h -E 'VIOLATION|violation' /tmp/w/ctl.$c.log | head -3)"
done
git -C /repo checkout -q -- .
echo CTLDONE
