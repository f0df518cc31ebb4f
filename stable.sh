#!/bin/bash
# stable tests of /repo against the baseline (development aid)
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out.json'))
print("stable tests lost:", sorted(set(b['stable'])-set(o['passed'])))
P
