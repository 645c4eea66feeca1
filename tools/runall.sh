#!/bin/bash
# runall.sh SEED [PROPERTY...]: runs the checks one after another and prints the last line of each
seed=${1:-1}; shift
props=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19}
cd "$(dirname "$0")/.."
for p in $props; do
  s=$(date +%s)
  VERIF_SEED=$seed VERIF_TIER=${TIER:-quick} timeout 900 python3 harness/check.py $p >/tmp/run-$p-$seed.log 2>&1
  rc=$?
  echo "$p seed=$seed rc=$rc $(( $(date +%s) - s ))s $(tail -1 /tmp/run-$p-$seed.log | cut -c1-200)"
done
