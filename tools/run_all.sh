#!/bin/bash
# run_all.sh [ids...]: run checks (default: all) 3 at a time; prints rc and time of each.  VERIF_SEED/VERIF_TIER apply.
cd "$(dirname "$0")/.." || exit 1
ids=${*:-$(ls checks | sed -n 's/^\(P[0-9]*\)\.py$/\1/p')}
O=$(mktemp -d /tmp/verif_runall.XXXX)
printf '%s\n' $ids | xargs -P 3 -I{} bash -c 's=$(date +%s.%N); ./check.sh {} > '$O'/{}.out 2>&1; rc=$?; e=$(date +%s.%N); printf "%s rc=%d %.1fs\n" {} $rc $(echo "$e-$s"|bc) ; [ $rc -ne 0 ] && tail -40 '$O'/{}.out' 
rm -rf "$O"
