#!/bin/bash
# runs the stable tests and compares with the baseline
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def passed(x):
    for k in ('passed','stable','pass'):
        if k in x: return set(x[k])
    return set(k for k,v in x.items() if v in('pass','passed'))
print(len(passed(b)),'stable; missing:',sorted(passed(b)-passed(o)))
P
