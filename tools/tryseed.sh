#!/bin/bash
# tryseed.sh ID... : applies each planted bug to /repo, runs the stable tests, its demo and its property's check, undoes it.
cd /verif
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh /tmp/t_$id.json >/tmp/t_$id.log 2>&1
  python3 - $id <<'P'
import json,sys
i=sys.argv[1]
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
t=json.load(open(f'/tmp/t_{i}.json'))
p=set(t.get('passed') or t.get('pass') or [])
print(i,'tests failing:',[x for x in b if x not in p][:8])
P
  fi
  bash seeded/$id/demo.sh >/tmp/d_$id.log 2>&1; echo "$id demo with patch: $?"
  python3 check.py $prop quick >/tmp/c_$id.log 2>&1; echo "$id check $prop: $? $(grep -m1 VIOLATION /tmp/c_$id.log)"
  git -C /repo checkout -q -- .
  [ -n "$NOCLEAN" ] || bash seeded/$id/demo.sh >/tmp/d0_$id.log 2>&1; [ -n "$NOCLEAN" ] || echo "$id demo clean: $?"
done
