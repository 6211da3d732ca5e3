# catch.sh ID...: apply each seed, run the check of its property (and optionally others)
for i in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$i/patch.diff || exit 9
cd /verif; bin/check $p > /tmp/catch.$i.log 2>&1; rc=$?
echo "$i $p rc=$rc $(grep -c ^VIOLATION /tmp/catch.$i.log) $(grep ^VIOLATION /tmp/catch.$i.log | head -1 | cut -c1-300)"
git -C /repo checkout -- .
done
