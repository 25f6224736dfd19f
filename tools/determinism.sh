#!/bin/bash
# Digests of all runs must not depend on the hash seed or on the number of worker processes.
cd "$(dirname "$0")/.."
rc=0
t=$(mktemp -d)
for p in ${*:-P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17}; do
  for s in 1 2; do
    PYTHONHASHSEED=$s /opt/venv/bin/python check.py $p --runs ${RUNS:-40} --jobs $((s * 3)) --digests $t/$s >/dev/null 2>&1
    sort $t/$s -o $t/$s
  done
  cmp -s $t/1 $t/2 && echo "$p same ($(wc -l < $t/1) runs)" || { echo "$p DIFFERENT"; rc=1; }
done
rm -rf "$t"
exit $rc
