#!/bin/bash
# run.sh mode [checks...]: all quick checks against the refactored copy
m=$1; shift; cs="$@"; [ -z "$cs" ] && cs=$(seq -f "C%02g" 1 37)
v=/tmp/rf/v_$m; rm -rf $v; mkdir $v; (cd /verif && tar c --exclude=.git --exclude=seeded .) | tar x -C $v
cd $v
for c in $cs; do
 VERIF_REPO=/tmp/rf/w_$m PYTHONPATH=/tmp/rf/w_$m VERIF_SEED=1 timeout 900 python3 check.py $c quick > /tmp/rf/log_$m.$c 2>&1; rc=$?
 echo "$m $c rc=$rc $(grep -c spurious /tmp/rf/log_$m.$c) $(grep -o 'exhaustive=False' /tmp/rf/log_$m.$c | head -1)"
done | tee /tmp/rf/out_$m
