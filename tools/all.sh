#!/bin/bash
# tools/all.sh [SEED] [TIER] [PROP...]: run the checks in sequence, one summary line each
seed=${1:-1}; tier=${2:-quick}; shift 2
cd "$(dirname "$0")/.." || exit 2
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C24 C25}; do
  s=$(date +%s)
  VERIF_SEED=$seed VERIF_TIER=$tier timeout 900 python3 check.py $p --tier $tier > /tmp/all.$p.$seed.log 2>&1
  rc=$?
  echo "$p seed=$seed rc=$rc $(( $(date +%s) - s ))s $(grep -h VIOLATION /tmp/all.$p.$seed.log | head -2)"
done
