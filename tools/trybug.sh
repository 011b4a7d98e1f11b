#!/bin/bash
# trybug.sh ID [CHECK...]: apply seeded/ID to /repo, build, test, demo, run checks (default: the property of meta.json), undo.
id="$1"; shift; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then (cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); echo "$id demo on clean: $?"; fi
git -C /repo apply $d/patch.diff || exit 2
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo "$id BUILD FAIL"; tail -20 /tmp/tb.log; exit 2; }
bash /opt/vp/test.sh /tmp/to.json >/tmp/tt.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/to.json'));b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print("failing stable tests:", sorted(b-set(o['passed']))[:5])
P
(cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); echo "$id demo on bug: $?"
fi
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c in "$@"; do /verif/check.sh $c >/tmp/tc.log 2>/tmp/tce.log; echo "$id check $c: exit $? $(grep -c ^VIOLATION /tmp/tc.log) violations; $(grep '^---' /tmp/tc.log | head -2 | cut -c1-200)"; done
