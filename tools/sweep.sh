#!/bin/bash
# Usage: sweep.sh "<ids>" "<seeds>" "<tiers>"  - run checks over several seeds, 6 at a time, print non-held outcomes.
here="$(cd "$(dirname "$0")/.." && pwd)"
cd "$here"
for t in $3; do for s in $2; do for i in $1; do echo "$i $t $s"; done; done; done |
xargs -P 6 -L 1 bash -c 'out=$(VERIF_SEED=$2 ./run_check.sh $0 $1 2>&1); rc=$?; w=$(echo "$out" | grep -o "wall=[0-9.]*s"); if [ $rc -ne 0 ]; then echo "== $0 $1 seed=$2 rc=$rc"; echo "$out" | tail -${TAILN:-4}; else echo "ok $0 $1 seed=$2 $w"; fi'
