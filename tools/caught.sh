#!/bin/sh
# caught.sh ID [PROP..]: apply a planted bug to /repo, run the checks, undo it.
cd /verif || exit 2
id=$1; shift
pgrep -f /opt/vcheck/ > /tmp/pg.out && { echo "vcheck is running on /repo"; exit 2; }
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT INT TERM
git -C /repo apply "/verif/seeded/$id/patch.diff" || exit 2
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
for p in $props; do
  timeout 900 python3 run.py check $p > /tmp/caught.out 2>&1; rc=$?
  echo "$id $p exit=$rc $(grep -c '^VIOLATION' /tmp/caught.out) $(sed -n 2p /tmp/caught.out | cut -c1-200)"
done
