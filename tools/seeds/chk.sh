#!/bin/bash
# chk.sh [ids]: runs the check of each planted bug against a copy with the bug
for d in ${@:-$(ls /verif/seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  rm -rf /tmp/w; cp -a /repo /tmp/w; git -C /tmp/w apply /verif/seeded/$d/patch.diff || { echo "$d NOAPPLY"; continue; }
  o=$(VERIF_REPO=/tmp/w timeout 900 bash /verif/run.sh $P 2>&1); c=$?
  echo "$d $P exit=$c $(grep -c '^VIOLATION property='$P <<<"$o") $(tail -1 <<<"$o" | cut -c1-120)"
done
