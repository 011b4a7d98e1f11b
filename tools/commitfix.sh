#!/bin/bash
# commitfix.sh "fix: msg": build+test /repo; commit if all stable tests pass
bash /opt/vp/build.sh >/tmp/cb.log 2>&1 || { tail /tmp/cb.log; exit 1; }
bash /opt/vp/test.sh /tmp/co.json >/tmp/ct.log 2>&1
python3 - <<'P' || exit 1
import json,sys
o=json.load(open('/tmp/co.json'));b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
miss=sorted(b-set(o['passed'])); print("missing:",miss[:5]); sys.exit(bool(miss))
P
git -C /repo commit -qam "$1" && git -C /repo log --oneline | head -1
