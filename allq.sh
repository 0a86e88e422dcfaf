#!/bin/bash
# runs every quick check once; prints one line per check
cd "$(dirname "$0")"
"$(dirname "$0")/build.sh" || exit 2
for i in $(seq -w 1 23) 26; do
  s=$(date +%s); o=$(VERIF_SEED=${1:-1} .build/sim.bin check C$i quick 2>&1); rc=$?
  echo "C$i rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -E '^VIOLATION|^violated|set aside' | head -2 | cut -c1-160 | tr '\n' ' ')"
done
