#!/bin/bash
# try.sh ID [nocheck|fast]: confirm a planted bug; fast = only the check
d=/verif/seeded/$1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
cd /repo
if [ "$2" != fast ]; then bash $d/demo.sh >/tmp/try.$1.clean 2>&1; c=$?; else c=-; fi
git apply $d/patch.diff || exit 2
if [ "$2" != fast ]; then
  bash /opt/vp/build.sh >/tmp/try.$1.build 2>&1 || { echo "$1 BUILD FAILED"; grep -A8 '^error' /tmp/try.$1.build | head -30; git checkout -q -- .; exit 1; }
  bash /opt/vp/test.sh /tmp/try.$1.json >/dev/null 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/try.$1.json'))
bp=set(b.get('passed') or b.get('stable') or b.get('tests') or []); op=set(o['passed'])
print(len(bp-op) if bp else 'nobase', list(bp-op)[:3])
P
)
  bash $d/demo.sh >/tmp/try.$1.patched 2>&1; m=$?
fi
k=-
if [ "$2" != nocheck ]; then
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick /verif/check.sh $p >/tmp/try.$1.check 2>&1; k=$?; e=$(( $(date +%s)-s ))
fi
git checkout -q -- .
echo "$1 prop=$p demo_clean=$c tests_lost=$t demo_patched=$m check=$k (${e}s) $(grep -m1 -A1 VIOLATION /tmp/try.$1.check | cut -c1-200 | tr '\n' ' ')"
