# seedtest.sh ID: apply to /repo, build, run tests, undo
cd /repo; git apply /verif/seeded/$1/patch.diff || exit 9
bash /opt/vp/build.sh > /tmp/sb.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/st.json > /tmp/st.log 2>&1; t=$?
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/st.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
E2=[x for x in b.get('stable',b.get('passed',[])) if x not in o.get('passed',[])]
print('missing',E2[:5])
P
echo build $b test $t
git checkout -- .
