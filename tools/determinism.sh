#!/bin/bash
# Same seed, other numbers of workers, another process: the digests of all runs must be equal.
# tools/determinism.sh [RUNS] [SEEDS...]
cd "$(dirname "$(readlink -f "$0")")/.." || exit 2
n=${1:-300}; shift
seeds=${*:-1 2 3}
bad=0
d=$(mktemp -d)
for c in 01 02 03 04 05 06 07 08 09 10 11 12 13 14; do
  for s in $seeds; do
    for w in 8 3 1 8; do
      "${RPHSIM:-.build/debug/rphsim}" C$c --seed $s --runs $n --workers $w --out $d --digests $d/w$w --quiet >/dev/null 2>&1
      sort -n $d/w$w > $d/x$w
      [ -e $d/first ] || cp $d/x$w $d/first
      cmp -s $d/first $d/x$w || { bad=1; echo "C$c seed $s workers $w: $(diff $d/first $d/x$w | grep -c '^<') of $n runs differ"; }
    done
    wc -l < $d/first | grep -qx $n || echo "C$c seed $s: $(wc -l < $d/first) digests"
    rm -f $d/first $d/w* $d/x*
  done
done
rm -rf "$d"
[ $bad = 0 ] && echo "all digests equal"
exit $bad
