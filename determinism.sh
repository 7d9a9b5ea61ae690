#!/bin/bash
# Runs every property's plans under several worker counts and hash seeds and
# compares the event-log digests.  usage: determinism.sh [runs] [seeds...]
cd "$(dirname "$0")" || exit 2
runs=${1:-120}; shift
seeds=${*:-1 2 3}
d=$(mktemp -d); rc=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C17 C20 C21 C22 C23; do
  for s in $seeds; do
    PYTHONHASHSEED=0 python3 check.py --digests $p --runs $runs --seed $s --workers 8 >$d/a
    PYTHONHASHSEED=77 python3 check.py --digests $p --runs $runs --seed $s --workers 3 >$d/b
    PYTHONHASHSEED=random python3 check.py --digests $p --runs $runs --seed $s --workers 8 >$d/c
    if cmp -s $d/a $d/b && cmp -s $d/a $d/c; then
      echo "$p seed $s: $(wc -l <$d/a) runs identical"
    else
      echo "$p seed $s: DIFFERENT"; diff $d/a $d/b | head -4; diff $d/a $d/c | head -4; rc=1
    fi
  done
done
rm -r "$d"
exit $rc
