#!/bin/bash
# Determinism: the event logs of all runs must be the same whatever the workers, the interpreter's hash seed and the time.
#   tools/selftest.sh ["C01 C02 ..."] ["SEEDS"] [CASES]
cd "$(dirname "$0")/.."
PROPS=${1:-$(ls dst/props/c*.py | sed 's/.*c\([0-9]*\).py/C\1/')}
SEEDS=${2:-"1 2"}
N=${3:-160}
T=$(mktemp -d)
bad=0
for p in $PROPS; do
  for s in $SEEDS; do
    i=0
    for conf in "8 0" "3 1" "1 4711" "8 99"; do
      set -- $conf
      VERIF_SEED=$s dst/check.py $p --seed $s --cases $N --workers $1 --hashseed $2 --dump $T/$i >/dev/null 2>&1
      i=$((i+1))
    done
    if cmp -s $T/0 $T/1 && cmp -s $T/0 $T/2 && cmp -s $T/0 $T/3; then
      echo "$p seed $s: $(wc -l < $T/0) logs, equal in 4 runs"
    else
      echo "$p seed $s: DIFFER: $(diff $T/0 $T/1 | head -3) $(diff $T/0 $T/2 | head -3) $(diff $T/0 $T/3 | head -3)"; bad=1
    fi
  done
done
rm -r "$T"
exit $bad
