#!/bin/bash
# fixcommit.sh PROP "fix: subject" "what failed"  -- runs the repository tests, commits /repo, records the fix
set -e
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -30 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/testout.json >/tmp/test.log 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/testout.json'))
def passed(d):
    for k in ("stable","passed"):
        if k in d: return d[k]
    raise SystemExit(repr(d)[:300])
miss=[x for x in passed(b) if x not in passed(t)]
if miss: raise SystemExit('tests failing: %r'%miss)
P
git -C /repo add -u && git -C /repo commit -q -m "$2"
h=$(git -C /repo rev-parse --short HEAD)
python3 - "$1" "$h" "$3" <<'P'
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
d['fixed'].append('fixed: property=%s %s %s'%tuple(sys.argv[1:4]))
json.dump(d,open(p,'w'),indent=1)
P
git -C /repo status --short; git -C /repo log --oneline | head -1
