#!/bin/bash
# Instruments only the code under test (and rustls, whose locks and state
# machines surround it) with edge callbacks; everything else is compiled as is.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  graviola|rustls_graviola|rustls)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=8 ;;
  *) exec "$rustc" "$@" ;;
esac
