#!/bin/bash
# seedtest.sh ID [CHECK...]: validates a planted bug in /repo (applied and undone again) and runs checks on it.
# With NOCHECK=1 only the validation. /repo must be clean.
S=/verif/seeded/$1; shift; ID=$(basename $S)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
B="bash /opt/vp/build.sh"
$B >/tmp/seed.b 2>&1 || { echo "$ID: clean build failed"; exit 1; }
(cd /repo && timeout 300 bash $S/demo.sh >/tmp/seed.d0 2>&1) || { echo "$ID: demo fails on the clean tree"; tail -5 /tmp/seed.d0; exit 1; }
git -C /repo apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .; $B >/tmp/seed.b 2>&1' EXIT
$B >/tmp/seed.b 2>&1 || { echo "$ID: does not build"; grep -m3 error /tmp/seed.b; exit 1; }
T=$(bash /opt/vp/test.sh /tmp/seed.t 2>/dev/null | tail -1)
python3 - <<X || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.t'))
s=b['stable']
s=[x if isinstance(x,str) else x.get('name') for x in s]
m=[x for x in s if x not in set(t['passed'])]
if m: print('$ID: tests broken:',m[:3]); sys.exit(1)
X
if (cd /repo && timeout 300 bash $S/demo.sh >/tmp/seed.d1 2>&1); then echo "$ID: demo passes with the patch"; exit 1; fi
echo "$ID valid ($T): $(tail -1 /tmp/seed.d1 | cut -c1-150)"
[ -n "$NOCHECK" ] && exit 0
for c in ${*:-$P}; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py $c >/tmp/seed.c 2>&1; r=$?
  echo "$ID check $c: exit $r $(grep -c VIOLATION /tmp/seed.c) violations; $(grep -m1 key= /tmp/seed.c) $(tail -1 /tmp/seed.c)"
done
