#!/bin/bash
# soak.sh FROM TO [ID...]: all checks with other seeds, from a copy
set -u
from=$1 to=$2; shift 2
ids=${*:-$(seq -f 'C%02g' 1 20)}
d=$(mktemp -d /tmp/soak-XXXX)
cp -a /verif/vf /verif/corpus /verif/known_findings.txt "$d" 2>/dev/null
cd "$d" || exit 1
for s in $(seq "$from" "$to"); do for c in $ids; do
  o=$(VERIF_SEED=$s timeout 1200 python3-vt vf/run.py "$c" 2>&1); r=$?
  echo "seed $s $c rc $r: $(echo "$o" | tail -2 | tr '\n' ' ')"
done; done
echo "done; copy in $d"
