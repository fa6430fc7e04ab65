#!/bin/bash
# in slot: chacha fix is part of HEAD later; for now apply
git -C /repo apply /tmp/w/mut/all.diff || exit 9
bash bin/build.sh || exit 8
. /opt/vp/env.sh
cd /repo && RUSTFLAGS="--cap-lints allow" cargo test --workspace --offline --no-run 2>&1 | tail -12
