#!/bin/bash
# seedtest.sh ID...: applies each planted bug to /repo, builds, tests, runs its demo and its check, and undoes it.
. /opt/vp/env.sh
cd "$(dirname "$0")/.." || exit 1; R=$(pwd)
for id in "${@:-$(ls seeded)}"; do
  for i in $id; do
    d=$R/seeded/$i
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    r="$i $prop:"
    (cd /repo && bash $d/demo.sh >/tmp/seed.$i.clean 2>&1) && r="$r demo-clean-ok" || r="$r DEMO-CLEAN-FAILS"
    git -C /repo apply $d/patch.diff || { echo "$r NO-APPLY"; continue; }
    bash /opt/vp/build.sh >/dev/null 2>&1 && r="$r builds" || r="$r NO-BUILD"
    bash /opt/vp/test.sh /tmp/seed.$i.json >/dev/null 2>&1
    r="$r $(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.$i.json'))
def names(x,k):
    return set(x.get(k,[]) if isinstance(x,dict) else [])
p=names(o,'passed')
want=set(b['stable'])
print('tests-ok' if want<=p else 'TESTS-FAIL %s'%sorted(want-p)[:3])
P
)"
    (cd /repo && bash $d/demo.sh >/tmp/seed.$i.out 2>&1) && r="$r DEMO-PATCHED-PASSES" || r="$r demo-fails"
    if [ -z "$NOCHECK" ]; then
      s=$(date +%s); ./check.sh $prop quick >/tmp/seed.$i.check 2>&1; rc=$?
      r="$r check rc=$rc $(grep -m1 '^VIOLATION' /tmp/seed.$i.check) ($(( $(date +%s)-s ))s)"
    fi
    git -C /repo checkout -- .
    echo "$r"
  done
done
