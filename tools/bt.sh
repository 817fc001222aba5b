#!/bin/bash
# build + test /repo and compare to the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('/tmp/t.json'))['passed'])
print('missing',sorted(b-t)[:10],len(t))"
