#!/bin/bash
# build /repo, run its tests, compare with the baseline's stable list
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print("missing:",m); sys.exit(bool(m))
P
