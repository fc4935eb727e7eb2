#!/bin/bash
# try_seed.sh ID...: build, tests, demo and the property's check with the planted change applied
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/dev/null 2>&1; a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; t=$(python3 -c "
import json;r=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable'];print(len(set(b)&set(r['passed'])),len(b))")
  bash $d/demo.sh >/tmp/demo.log 2>&1; b=$?
  out=$(python3 /verif/checks/run.py $p 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id $p: demo clean=$a patched=$b tests=$t check=$c :: $(echo "$out" | grep -m1 '^  at\|ANALYSIS\|OK' | cut -c1-220)"
done
cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1
