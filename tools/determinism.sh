#!/bin/bash
# determinism.sh [PROP...] : run the same seeds twice, in 1 worker and in 8 workers (so after different earlier runs, in
# different processes), under an empty and a large environment, and compare the recorded hashes of every run:
# scenario text, executed interleaving, outcome, flags. Env: RUNS (default 2400), VERIF_SEED.
set -u
cd "$(dirname "$0")/.."
runs=${RUNS:-2400}; seed=${VERIF_SEED:-1}; bad=0
t=$(mktemp -d "$PWD/build/detXXXXXX")
for p in ${@:-$(seq -f C%02g 1 26)}; do
  SIM_SECONDS=0.2 python3 run_check.py $p >/dev/null 2>&1
  g=$(python3 -c "import run_check as r; print(r.PROPS['$p'])")
  exe=$(ls build/$g/sim-* | grep -v '\.' | head -1)
  for n in 1 8; do
    for w in $(seq 0 $((n - 1))); do
      env -i PATH="$PATH" PAD="$(head -c $((n * 400)) /dev/zero | tr '\0' x)" \
        $exe run $p $seed $w $n $((runs / n)) 600 0 $t/$p-$n-$w >/dev/null 2>$t/err &
    done
    wait
    cat $t/$p-$n-*.hashes > $t/$p-$n
  done
  python3 - $p $t/$p-1 $t/$p-8 <<'P' || bad=1
import array, sys
def load(f):
    a = array.array("Q"); a.frombytes(open(f, "rb").read())
    return sorted(tuple(a[i:i + 5]) for i in range(0, len(a), 5))
x, y = load(sys.argv[2]), load(sys.argv[3])
d = len(set(x) ^ set(y))
print("%s: %d and %d runs, %s" % (sys.argv[1], len(x), len(y), "identical" if x == y else "%d DIFFERENT" % d))
sys.exit(x != y or not x)
P
done
rm -rf "$t"
exit $bad
