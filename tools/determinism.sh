#!/bin/bash
# Same seeds, other worker counts and hash seeds: the event logs of all runs have to be the same.
# usage: tools/determinism.sh N [checks...]
cd "$(dirname "$(readlink -f "$0")")/.." || exit 2
n=$1; shift
D=$(mktemp -d); rc=0
export DST_SELFCHECK=1 DST_EVIDENCE=$D/ev DST_REPLAYS=$D/rep
for c in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17}; do
  for s in 1 2; do
    ./check $c --n "$n" --wall 2000 --seed $s --log $D/a >/dev/null 2>&1
    PYTHONHASHSEED=77 ./check $c --n "$n" --wall 2000 --seed $s --workers 5 --log $D/b >/dev/null 2>&1
    if cmp -s $D/a $D/b && [ -s $D/a ]; then echo "$c seed $s: $(wc -l <$D/a) runs identical"
    else echo "$c seed $s: DIFFERENT in $(diff $D/a $D/b | grep -c '^<') runs: $(diff $D/a $D/b | grep '^<' | cut -d' ' -f2 | head -5 | tr '\n' ' ')"; rc=1; fi
  done
done
rm -rf "$D"
exit $rc
