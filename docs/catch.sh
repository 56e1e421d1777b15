#!/bin/bash
# catch.sh [ID...]: runs the registered check of each planted bug against it and records the outcome in catch.json (developer aid)
for d in ${@:-$(ls /verif/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  timeout 900 python3-vt /verif/engine/run.py $p --tier quick > /tmp/catch.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c VIOLATION /tmp/catch.out) $(grep -m1 -A1 VIOLATION /tmp/catch.out | tail -1 | cut -c1-150)"
  python3 - $d $p $rc <<'EE'
import json,os,sys
f='/verif/docs/catch.json'
c=json.load(open(f)) if os.path.exists(f) else {}
c[sys.argv[1]]='yes, by '+sys.argv[2] if sys.argv[3]=='1' else 'no'
json.dump(c,open(f,'w'),indent=1,sort_keys=True)
EE
done
