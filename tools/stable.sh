#!/bin/bash
# stable.sh: run the repository's tests on /repo and list stable tests that do not pass.
O=$(mktemp); bash /opt/vp/test.sh "$O" >/tmp/stable.log 2>&1
/usr/bin/python3 - "$O" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
names=b.get('passed') or b.get('stable') or b
if isinstance(names,dict): names=names.get('passed') or list(names)
miss=[n for n in names if n not in set(o['passed'])]
print(len(names),'stable,',len(miss),'missing'); print('\n'.join(miss[:20]))
sys.exit(1 if miss else 0)
P
rc=$?; rm -f "$O"; exit $rc
