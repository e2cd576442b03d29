#!/bin/bash
# seedtest.sh ID..: do the repository's stable tests pass with the planted bug? (in a copy, /tmp/rt/hooq,
# with the scripts of /opt/vp adapted to it in /tmp/rt/vp)
for id in "$@"; do
  git -C /tmp/rt/hooq checkout -q -- .
  if [ "$id" != clean ]; then git -C /tmp/rt/hooq apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }; fi
  bash /tmp/rt/vp/build.sh > /tmp/rt/build.log 2>&1 || { echo "$id build failed: $(grep -m2 '^error' /tmp/rt/build.log)"; continue; }
  bash /tmp/rt/vp/test.sh /tmp/rt/out.json > /tmp/rt/test.log 2>&1
  python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
o=json.load(open('/tmp/rt/out.json'))
p=set(o.get('passed') or o.get('pass') or [k for k,v in o.items() if v in('pass','passed','ok')])
bad=[t for t in b if t not in p]
print(sys.argv[1],'TESTS',len(b)-len(bad),'of',len(b),bad[:4])
P
done
git -C /tmp/rt/hooq checkout -q -- .
