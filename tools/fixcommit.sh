#!/bin/bash
# fixcommit.sh MSG FILES..: build, run the stable tests, commit in /repo
m="$1"; shift
(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/t.json) > /tmp/test.log 2>&1 || { tail -30 /tmp/test.log; exit 1; }
python3 - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
bs=set(b['passed'] if 'passed' in b else b.get('stable',b.get('tests',[])))
ts=set(t['passed'])
print(len(ts),'passed; missing',sorted(bs-ts)[:5])
raise SystemExit(1 if bs-ts else 0)
P
cd /repo && git add "$@" && git commit -qm "$m" && git status --short | head -3; git log --oneline | head -1
