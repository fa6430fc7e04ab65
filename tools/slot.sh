#!/bin/bash
# Developer helper: slot.sh N COMMAND...: runs COMMAND in a private mount namespace in which /repo and /verif are the copies
# under /tmp/w/slotN (brought up to date first), so that planting bugs touches neither the real trees nor a vcheck under way.
n=$1; shift; s=/tmp/w/slot$n
mkdir -p $s
exec 8>$s.lock; flock 8
[ -d $s/repo ] || cp -a /repo $s/repo
[ -d $s/verif ] || cp -a /verif $s/verif
git -C $s/repo checkout -q -- . ; git -C $s/repo fetch -q /repo HEAD && git -C $s/repo reset -q --hard FETCH_HEAD
rsync -a --delete --exclude=/target --exclude=/.git --exclude=/evidence --exclude=/replays /verif/ $s/verif/
exec unshare -m bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && exec "$@"' $s "$@"
