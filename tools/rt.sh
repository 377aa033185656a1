#!/bin/bash
# runs the repository's tests, compares with the baseline
bash /opt/vp/test.sh /tmp/rt.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
def passed(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(d[k])
    raise SystemExit(str(d.keys()))
miss=sorted(passed(b)-passed(r))
print(len(passed(b)),"baseline;", len(miss),"not passing"); print("\n".join(miss[:20]))
P
