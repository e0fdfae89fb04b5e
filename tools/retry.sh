#!/bin/bash
# retry.sh [PATTERN]: runs every planted bug against the check of its property.
cd /verif/seeded
for s in *; do
  [[ "$s" == *${1:-}* ]] || continue
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  o=$(cd /verif && ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$o"; then echo "$s $p caught: $(grep -m1 '^  ' <<<"$o" | cut -c1-180)"; else echo "$s $p MISSED rc=$rc $(grep -m2 UNDEC <<<"$o" | cut -c1-200)"; fi
done
