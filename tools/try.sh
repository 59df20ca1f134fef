for s in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
cd /repo && git apply /verif/seeded/$s/patch.diff || { echo "APPLY FAIL $s"; continue; }
cd /verif && bash check.sh $p quick > /tmp/try.out 2>&1; rc=$?
echo "$s rc=$rc $(grep -m1 VIOLATION /tmp/try.out)"
cd /repo && git checkout -- .
done
