#!/bin/bash
# Determinism of the simulator: the same seeds in many processes, in both orders and at several
# loads, must give the same schedules, calls, results and verdicts (one hash per run).
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
sim=$here/build/native/release/sim
export SIM_ROOT=$here
tmp=$(mktemp -d)
trap 'rm -r -- "$tmp"' EXIT
bad=0
for p in 01 02 03 04 05 06 07 08 09 10 11 12 14 16; do
  for seed in 1 2 3 4 5; do
    for v in a b c d; do
      ( [ "$v" = b ] && export SIM_REVERSE=1
        [ "$v" = c ] && exec nice -n 19 "$sim" hashes P$p $seed 0 4000 >"$tmp/$p.$seed.$v"
        if [ "$v" = d ]; then # in pieces, other processes
          for k in 0 1 2 3; do "$sim" hashes P$p $seed $((k*1000)) $((k*1000+1000)); done >"$tmp/$p.$seed.$v"
        else "$sim" hashes P$p $seed 0 4000 >"$tmp/$p.$seed.$v"; fi ) &
    done
    [ "$seed" = 5 ] && wait
  done
  wait
  for seed in 1 2 3 4 5; do
    for v in b c d; do
      cmp -s "$tmp/$p.$seed.a" "$tmp/$p.$seed.$v" || { echo "P$p seed $seed: variant $v differs"; bad=1; }
    done
    [ "$(wc -l <"$tmp/$p.$seed.a")" = 4000 ] || { echo "P$p seed $seed: incomplete"; bad=1; }
  done
done
[ $bad = 0 ] && echo "selftest: 14 properties x 5 seeds x 4000 runs x 4 process layouts: identical"
exit $bad
