#!/bin/bash
# wave.sh SLOT ID...
n=$1; shift
for id in "$@"; do bash /verif/tools/slot.sh $n bash tools/plant.sh $id; done
