# runs checks against seeds in copies (the working trees stay untouched): seedcopy.sh SEED...
rm -rf /tmp/sc; mkdir -p /tmp/sc
cp -a /verif /tmp/sc/verif; cp -a /repo /tmp/sc/repo
cd /tmp/sc/verif
for s in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
 git -C /tmp/sc/repo apply /verif/seeded/$s/patch.diff || { echo "$s: patch fails"; continue; }
 t0=$(date +%s)
 VERIF_REPO=/tmp/sc/repo timeout 900 python3-vt vc/check.py $p > /tmp/out.$s 2>&1; r=$?
 git -C /tmp/sc/repo checkout -- .
 echo "$s $p exit $r $(( $(date +%s)-t0 ))s : $(grep -E 'VIOLATION' /tmp/out.$s | head -3 | cut -c1-200) $(grep -c NOTE /tmp/out.$s) notes"
done
rm -rf /tmp/sc
