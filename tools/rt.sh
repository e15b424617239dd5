#!/bin/bash
# run the repo's stable tests; print any stable test which does not pass
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
def passed(d):
    for k in ('passed','stable','pass','tests'):
        if k in d: return set(d[k])
    raise SystemExit(list(d))
print('BROKEN:', sorted(passed(b)-passed(r)))
print('NEWLY:', sorted(passed(r)-passed(b)))
P
