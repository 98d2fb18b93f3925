#!/bin/bash
# Every run must have the same event hash whatever process it runs in. Usage: tools/determinism.sh RUNS [PROPERTY...]
cd "$(dirname "$0")/.." || exit 2
runs=$1; shift
[ $# = 0 ] && set -- C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15
d=$(mktemp -d) || exit 2
for c in "$@"; do
  for w in 8 5 3; do OSMSIM_DIR=$d OSMSIM_HASHES=1 OSMSIM_WORKERS=$w OSMSIM_RUNS=$runs ./target/release/osmsim check "$c" quick | grep '^H' | sort >"$d/$w"; done
  echo "$c: $(wc -l <"$d/8") runs, $(cat "$d/8" "$d/5" "$d/3" | sort | uniq -c | awk '$1 != 3' | awk '{print $3}' | sort -un | wc -l) differ between processes"
done
rm -rf -- "$d"
