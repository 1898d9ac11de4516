#!/bin/bash
# build /repo and run its tests; prints counts
bash /opt/vp/build.sh >/tmp/rt_build.log 2>&1 || { tail -20 /tmp/rt_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt_test.log 2>&1
python3 - <<'P'
import json
r=json.load(open('/tmp/rt.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def passed(x):
    for k in ('passed','pass'):
        if k in x: return set(x[k])
    return {k for k,v in x.items() if v in ('pass','passed','PASS')}
P=passed(r)
B=passed(b) or set(b.get('stable',[]))
print(len(P),'passed; missing from baseline:', sorted(B-P)[:10])
P
