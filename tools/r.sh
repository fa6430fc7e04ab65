#!/bin/bash
# developer helper: build, run one check, show the minimised steps of a violation
cd /verif/sim && cargo build --offline 2>&1 | grep -E "^(error|warning)|-->|Finished"
out=$(/verif/target/debug/gsim check "$@" 2>&1); echo "$out" | tail -6 | cut -c1-1500
f=$(echo "$out" | grep -o 'replay=.*' | cut -d= -f2)
[ -n "$f" ] && sed -n '/"steps"/,$p' "$f" | tr -d ' \n'
