#!/bin/bash
# Builds the simulator against /repo's current working tree. Rebuilds the crates under test whenever their
# contents differ from the last build, whatever the file times say.
set -u
cd /verif/sim || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p /verif/target
exec 9>/verif/target/.build-lock
flock 9
sum=$(cd /repo && { cat Cargo.toml; find graviola rustls-graviola -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.der' -o -name '*.bin' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
stamp=/verif/target/.repo-sum
if [ "$(cat $stamp 2>/dev/null)" != "$sum" ]; then
  rm -rf /verif/target/debug/.fingerprint/graviola-* /verif/target/debug/.fingerprint/rustls-graviola-* /verif/target/debug/.fingerprint/gsim-*
  rm -f "$stamp"
fi
log=/verif/target/build.log
if ! cargo build --offline >"$log" 2>&1; then
  tail -40 "$log" >&2
  echo "BUILD-FAILED: the simulator does not build against /repo" >&2
  exit 2
fi
echo "$sum" > "$stamp"
/verif/target/debug/gsim isa || exit 2
