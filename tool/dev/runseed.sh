# apply seed, run check of its property, revert
cd /verif
for s in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: patch fails"; continue; }
 t0=$(date +%s)
 python3-vt vc/check.py $p > /tmp/out.$s 2>&1; r=$?
 git -C /repo checkout -- .
 echo "$s $p exit $r $(( $(date +%s)-t0 ))s : $(grep -E 'VIOLATION' /tmp/out.$s | head -3 | cut -c1-200) $(grep -c NOTE /tmp/out.$s) notes"
done
