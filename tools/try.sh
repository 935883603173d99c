#!/bin/bash
# try.sh ID [CNN...]: applies a planted bug to /repo, builds, tests, runs its demonstration and the checks, and takes it out again.
id=$1; shift
d=/verif/seeded/$id
git -C /repo diff --quiet || { echo "dirty /repo"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then (cd /repo && bash "$d/demo.sh" > /tmp/try.demo0 2>&1; echo "demo unchanged: $?"); fi
git -C /repo apply "$d/patch.diff" || exit 2
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh > /tmp/try.build 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/try.json > /tmp/try.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/try.json'))
good=set(t['passed'])
print('tests lost:', sorted(set(b['stable'])-good))
P
(cd /repo && bash "$d/demo.sh" > /tmp/try.demo1 2>&1; echo "demo with bug: $?"; tail -3 /tmp/try.demo1)
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif && for c in ${@:-$p}; do python3 check.py $c | cut -c1-400; done
