#!/bin/bash
# Run the repository's tests and say which of the stable ones fail.
bash /opt/vp/build.sh >/tmp/rt_build.log 2>&1 || { echo BUILD FAILED; tail -30 /tmp/rt_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt_out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/rt_out.json'))
def passed(d):
    for k in ('stable','passed','pass','tests'):
        if k in d: return d[k]
bp=set(map(str,passed(b))); op=set(map(str,o.get('passed',o.get('pass',[]))))
print('stable',len(bp),'missing',sorted(bp-op))
P
