#!/bin/bash
# tools/determinism.sh [N]: execute N runs of every property twice - once in
# large batches, once in small ones, in reverse order, in other processes - and
# compare their event logs.
here="$(cd "$(dirname "$0")/.." && pwd)"
export VERIF_ROOT="$here"
. "$here/build.sh"
all="${1:-2000}"
rc=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C15; do
    n=$all; [ $p = C15 ] && n=$((all / 10))
    build_for $p
    t="$(mktemp -d)"
    for seed in 1 2 3; do
        seq 0 $((n - 1)) | xargs -n $((n / 4)) -P 8 "$bin" logs $p quick $seed | sort >"$t/a"
        seq $((n - 1)) -1 0 | xargs -n 61 -P 5 "$bin" logs $p quick $seed | sort >"$t/b"
        if cmp -s "$t/a" "$t/b" && [ "$(wc -l <"$t/a")" = "$n" ]; then
            echo "$p seed $seed: $n runs, identical event logs"
        else
            echo "$p seed $seed: DIVERGED ($(wc -l <"$t/a") lines)"; diff "$t/a" "$t/b" | head -4; rc=1
        fi
    done
    rm -r "$t"
done
exit $rc
