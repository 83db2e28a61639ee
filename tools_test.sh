#!/bin/bash
# run the repository's own tests, compare with the baseline
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1 || { tail -20 /tmp/o.log; }
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/o.json'))
print('stable',len(b),'missing',sorted(set(b)-set(o['passed']))[:10])
P
