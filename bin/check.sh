#!/bin/bash
# usage: check.sh ID quick|thorough
set -u
id=$1; tier=${2:-quick}
/verif/bin/build.sh || exit 2
exec /verif/target/debug/gsim check "$id" "$tier"
