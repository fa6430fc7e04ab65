#!/bin/bash
n=$1; shift; s=/tmp/w/slot$n
exec unshare -m bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && exec "$@"' $s "$@"
