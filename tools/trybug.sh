#!/bin/bash
# trybug.sh ID [check...]: apply seeded/ID to /repo, build, test, demo, run the check of its property; undo.
# Only for development; no check uses it.
id=$1; d=/verif/seeded/$id; shift
git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo "base build failed"; exit 9; }
(cd /repo && bash $d/demo.sh >/tmp/tb.demo0 2>&1); d0=$?
git -C /repo apply $d/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/tb.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.test 2>&1; t=$(python3 - <<'P'
import json
o=json.load(open('/tmp/tb.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=set(b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests'))
print(len(base-set(o['passed'])))
P
)
(cd /repo && bash $d/demo.sh >/tmp/tb.demo1 2>&1); d1=$?
for p in ${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
  (cd /verif && timeout 900 ./check $p >/tmp/tb.check 2>&1); c=$?
  echo "$id: build=$b tests_lost=$t demo_before=$d0 demo_after=$d1 $p=$c $(grep -m1 ' \[' /tmp/tb.check | cut -c1-150)"
done
git -C /repo checkout -- .
