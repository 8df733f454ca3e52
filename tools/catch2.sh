# catch against /tmp/wt with checks in /tmp/vw
cd /tmp/wt; git checkout -q .
for i in "$@"; do
 d=/tmp/plant/out/$i; [ -d $d ] || d=/verif/seeded/$i
 p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git apply $d/patch.diff || { echo $i NOAPPLY; continue; }
 (cd /tmp/vw; s=$(date +%s); VERIF_SEED=1 VERIF_REPO=/tmp/wt PYTHONPATH=/tmp/wt python3 check.py $p quick > /tmp/plant/$i.log 2>&1; echo $i $p rc=$? $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/plant/$i.log))
 git checkout -q .
done
