#!/bin/bash
# sweep.sh "PROPS" "SEEDS" [WORKERS] : run checks over seeds from a copy of this tree, print the alarms
cp -a "$(cd "$(dirname "$0")/.." && pwd)" /tmp/sweep.$$ && cd /tmp/sweep.$$
for s in $2; do for p in $1; do
  timeout 3000 ./dst/check.py $p --seed $s --workers ${3:-4} > out.txt 2>&1 || { echo "== $p seed $s"; tail -6 out.txt; mkdir -p /tmp/sweepfail; cp replays/$p-seed$s-* /tmp/sweepfail/ 2>/dev/null; }
done; done
echo "swept $1 seeds $2"
rm -rf /tmp/sweep.$$
