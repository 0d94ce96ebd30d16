#!/bin/bash
# Rebuilds /repo and compares its test results with the stable list.
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/out.json'))
p=set(o['passed']); miss=sorted(b-p)
print(len(b&p),'of',len(b),'stable pass'); print('\n'.join(miss[:20]))
P
git -C /repo status --short | head
