#!/bin/bash
# Runs the repository's tests and compares with the baseline.
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
a=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(a['passed'])
print("stable tests not passing:", m or "none", "| passed", len(a['passed']))
P
