#!/bin/bash
# build /repo and run its tests; exit 0 if every stable test passes
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable_out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/stable_out.json'))
def passed(d):
    for k in ('passed','stable','stable_pass','pass'):
        if k in d: return set(d[k])
    raise SystemExit('keys %s' % list(d))
miss=passed(b)-passed(o)
print('stable', len(passed(b)), 'passing now', len(passed(o)), 'missing', sorted(miss)[:10])
raise SystemExit(1 if miss else 0)
P
