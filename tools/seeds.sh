#!/bin/bash
# tools/seeds.sh FIRST LAST [IDS...]: all checks under several seeds; prints what is not quiet.
a=$1; b=$2; shift 2
ids=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22}
for s in $(seq "$a" "$b"); do for i in $ids; do
  o=$("$(dirname "$0")"/../run.sh "$i" --seed "$s" 2>&1); r=$?
  [ $r = 0 ] || { echo "== $i seed $s exit $r"; echo "$o" | head -40; cp "$(dirname "$0")/../evidence/replay-$i.json" "/tmp/fail-$i-$s.json" 2>/dev/null; }
  echo "$i $s $r $(echo "$o" | head -1 | cut -c1-120)"
done; done
