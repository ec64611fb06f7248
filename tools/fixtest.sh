#!/bin/bash
# run the repository's tests and compare with the baseline
bash /opt/vp/test.sh /tmp/out.json >/tmp/fixtest.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/out.json'))
m=b-set(o['passed']); print('MISSING' if m else 'ALL-STABLE-PASS', sorted(m)[:5])
P
