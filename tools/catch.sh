#!/bin/bash
# catch.sh ID... — apply each seeded bug to /repo, run the check of its property, undo
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$id/patch.diff || continue
 o=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 bash run.sh ${P:-$p} 2>&1); r=$?
 git -C /repo checkout -q -- .
 echo "$id: rc=$r $(echo "$o" | grep -m1 VIOLATION)"; [ $r = 0 ] || echo "$o" | tail -${TAIL:-3}
done
