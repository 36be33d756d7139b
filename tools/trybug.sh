#!/bin/bash
# trybug.sh ID [nochk]: confirms a planted bug (applies, builds, passes the stable tests, demo fails with it and passes without), then runs its property's check on it.
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1; bash $D/demo.sh >/tmp/demo.$ID.out 2>&1; echo "$ID demo clean: $?"
git apply $D/patch.diff || { echo "patch does not apply"; exit 2; }
if [ "$2" != onlychk ]; then
bash /opt/vp/test.sh /tmp/res.$ID.json > /tmp/test.$ID.out 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/res.$ID.json'))
want=set(b if isinstance(b,list) else b['stable'])
miss=want-set(r['passed'])
print('$ID stable tests: ', 'all pass' if not miss else 'FAIL %d %s'%(len(miss),sorted(miss)[:3]))
P
timeout 300 bash $D/demo.sh >/tmp/demo.$ID.out 2>&1; echo "$ID demo with bug: $?"
fi
if [ "$2" != nochk ]; then cd /verif; timeout 900 python3-vt dv/check.py $P quick > /tmp/chk.$ID.out 2>&1; echo "$ID check $P exit $?: $(grep VIOLATION /tmp/chk.$ID.out)"; fi
cd /repo && git checkout -- . 
