#!/bin/bash
# developer helper: rebuild /repo and run its tests; print regressions against the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { grep -E '^error' -A6 /tmp/b.log | head -60; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/out.json'))
p=set(o['passed']); m=[x for x in b if x not in p]
print(len(p),'passed; missing from baseline:',m[:20])
P
