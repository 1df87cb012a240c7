#!/bin/bash
# false-alarm sweep: tools/sweep.sh "C01 C02" seed0 seed1   (by hand)
for s in $(seq "$2" "$3"); do for p in $1; do
  out=$(VERIF_SEED=$s "$(dirname "$0")/../bin/check" "$p" 2>&1); rc=$?
  [ $rc -ne 0 ] && { echo "seed $s $p rc=$rc"; echo "$out" | grep -v "^  .*cases="; }
done; done; echo "sweep done $*"
