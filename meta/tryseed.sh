#!/bin/bash
# tryseed.sh ID...: does the seeded change build, pass the stable tests, fail its demonstration, and is it caught?
for id in "$@"; do
d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
r="$id ($p):"
bash /opt/vp/build.sh > /tmp/try.log 2>&1
(cd /repo && bash $d/demo.sh > /tmp/try.log 2>&1) && r="$r clean-ok" || r="$r CLEAN-DEMO-FAILS"
if ! git -C /repo apply $d/patch.diff; then echo "$r DOES-NOT-APPLY"; continue; fi
if bash /opt/vp/build.sh > /tmp/try.log 2>&1; then
 bash /opt/vp/test.sh /tmp/try.json > /tmp/try.log 2>&1
 r="$r $(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/try.json'))
bad=[k for k in b['stable'] if k not in t['passed']]
print('tests-pass' if not bad else 'TESTS-CATCH %s'%bad[:3])
P
)"
 (cd /repo && bash $d/demo.sh > /tmp/try.log 2>&1) && r="$r DEMO-PASSES" || r="$r demo-fails"
else r="$r NO-BUILD"; fi
python3 /verif/py/run.py $p > /tmp/try.log 2>&1; c=$?
[ $c = 1 ] && r="$r caught" || r="$r MISSED($c)"
git -C /repo checkout -- .
echo "$r"
done
bash /opt/vp/build.sh > /tmp/try.log 2>&1
rm -f /tmp/try.log /tmp/try.json
