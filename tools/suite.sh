#!/bin/bash
# build and run the repository's tests; print what does not pass of the baseline
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json > /tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(o):
    if isinstance(o,dict):
        for k in ('passed','pass','tests','stable'):
            if k in o: return set(o[k]) if not isinstance(o[k],dict) else set(k2 for k2,v in o[k].items() if v in ('pass','passed',True))
        return set(k for k,v in o.items() if v in ('pass','passed',True))
    return set(o)
bn,tn=names(b),names(t); print(len(bn),'baseline;',len(bn&tn),'pass; missing:',sorted(bn-tn)[:10])
P
