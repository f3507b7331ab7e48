#!/bin/bash
# run the stable tests; print those of the baseline that fail
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x):
    return x
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()}); print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
st=set(b.get('stable_pass') or b.get('stable') or b.get('passed') or b.get('pass') or [])
ps=set(o.get('passed') or o.get('pass') or [])
print('missing', sorted(st-ps)[:20], len(st-ps))
P
