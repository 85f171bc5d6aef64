#!/bin/bash
# tryseed.sh ID... : run the property's quick check with the planted bug applied
for i in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$i/patch.diff || continue
s=$(date +%s); o=$(cd /verif; timeout 900 python3-vt engine/check.py $p quick 2>&1); rc=$?
git -C /repo checkout -- .
echo "== $i $p rc=$rc $(( $(date +%s) - s ))s"; echo "$o" | tail -${LINES_:-6}
done
