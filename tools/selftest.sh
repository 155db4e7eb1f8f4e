#!/bin/bash
# Checks of the engine itself; not part of any registered check.
#  1. the term simplifier against z3 on random terms (rsym --selftest)
#  2. queries of whole harness runs, dumped as SMT-LIB, decided again by cvc5 and a newer z3
# usage: tools/selftest.sh [terms] [PROP:harness:case ...]   (run the property's check once before)
cd "$(dirname "$0")/.." || exit 2
N=${1:-5000}; shift
R=.build/engine/release/rsym
[ -x $R ] || python3 check.py --setup || exit 2
D=$(mktemp -d /tmp/rsym-selftest.XXXXXX)
bad=0
for s in 1 2 3 4 5 6 7 8; do $R --seed $s --selftest $N > $D/self.$s & done; wait
cat $D/self.*
grep -q ' 0 wrong' $D/self.* || bad=1
for s in 1 2 3 4 5 6 7 8; do grep -q ', 0 wrong' $D/self.$s || bad=1; done
T=("$@"); [ ${#T[@]} -gt 0 ] || T=(P02:p02_index:4 P04:p04_vec:2 P07:p07_any32:0 P08:p08_index:2 P10:p10_row32:0 P18:p18_lists:0)
for t in "${T[@]}"; do
  IFS=: read -r p h c <<< "$t"
  [ -f .build/ir/$p.ll ] || { python3 check.py $p --only $h >/dev/null; }
  mkdir -p $D/$p.$h; $R .build/ir/$p.ll --entry $h --case $c --time 300 --dump $D/$p.$h --out $D/$p.$h/out.json >/dev/null 2>&1
  n=0; diff=0; und=0
  for q in $D/$p.$h/*.smt2; do
    [ -f "$q" ] || continue
    n=$((n+1)); want=$(cat ${q%.smt2}.res)
    for s in "cvc5 --tlimit=20000" "z3-new -T:20"; do
      got=$($s $q 2>/dev/null | head -1)
      case "$got" in sat|unsat) [ "$got" = "$want" ] || { diff=$((diff+1)); echo "DIFFERENT $q $s $got $want"; };; *) und=$((und+1));; esac
    done
  done
  echo "$p $h: $n queries, $diff different answers, $und undecided by the other solvers"
  [ $diff = 0 ] || bad=1
done
find $D -name '*.json' -delete; [ $bad = 0 ] && find "$D" -type f -delete && find "$D" -depth -type d -empty -delete
exit $bad
