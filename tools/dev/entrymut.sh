#!/bin/bash
# runs inside a slot: every new_secret -> new_public, one at a time
cd /repo
grep -rn "Entry::new_secret()" graviola/src --include=*.rs | grep -v "fn new_secret" | cut -d: -f1,2 > /tmp/w/sites.txt
while IFS=: read -r f l; do
  sed -i "${l}s/new_secret/new_public/" $f
  fn=$(head -$l $f | grep -n "fn " | tail -1 | sed 's/^[0-9]*: *//')
  out=$(cd /verif && bash bin/build.sh 2>&1 >/dev/null; /verif/target/debug/gsim check C14 quick --runs 5000 2>/dev/null | grep -E "violation class|VIOLATION" | tr '\n' ' ')
  echo "$f:$l [$fn] => $out"
  git checkout -q -- .
done < /tmp/w/sites.txt
