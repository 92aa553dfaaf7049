#!/bin/bash
# sweep.sh TIER "SEEDS" CHECK...: run checks at several seeds, print only the summary or the failure
T=$1; S=$2; shift 2
for c in "$@"; do for s in $S; do
  o=$(VERIF_SEED=$s VERIF_TIER=$T python3 "$(dirname "$0")/../check.py" $c 2>&1); rc=$?
  if [ $rc != 0 ]; then echo "$o" | cut -c1-700 | head -${LINES_MAX:-8}; fi
  echo "$o" | tail -1
done; done
