#!/bin/bash
# sweep.sh "C01 C02" "2 3 4"  : run checks over seeds, print non-held
for p in $1; do for s in $2; do
 o=$(VERIF_SEED=$s VERIF_TIER=${T:-quick} python3 /verif/run.py $p 2>&1); r=$?
 echo "$p seed=$s rc=$r $(echo "$o"|grep -a -o '[0-9.]* s$'|head -1)"; [ $r = 0 ] || echo "$o" | grep -a -A12 -e '--- case\|INCON\|also'|head -${L:-30}
done; done
