#!/bin/bash
# Prove determinism: every run's digest (schedule, results, process ends) must be the same whatever
# the number of workers, in different processes. Usage: determinism.sh [runs] [seed...]
cd "$(dirname "$0")" || exit 2
n=${1:-300}; shift; seeds=${*:-1 2 3}
bad=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C21; do
  for s in $seeds; do
    a=$(target/release/finsim digests --prop $p --seed $s --runs $n --workers 8 | sha256sum)
    b=$(target/release/finsim digests --prop $p --seed $s --runs $n --workers 3 | sha256sum)
    c=$(FOO=bar TZ=Asia/Tokyo target/release/finsim digests --prop $p --seed $s --runs $n --workers 13 | sha256sum)
    if [ "$a" != "$b" ] || [ "$a" != "$c" ]; then echo "$p seed $s: digests differ"; bad=1; fi
  done
done
[ $bad = 0 ] && echo "deterministic: 13 properties, seeds $seeds, $n runs each, at 8, 3 and 13 workers"
exit $bad
