#!/bin/bash
# tools/seed.sh ID : confirm seeded/ID (patch applies, stable tests pass, demo 0 on base / nonzero patched), then run its check
# works on /repo itself and undoes the patch
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
tmp=$(mktemp -d)
cp -r $d $tmp/demo; rm -f $tmp/demo/*.diff $tmp/demo/meta.json
bash $tmp/demo/demo.sh >/tmp/w/demo_base.log 2>&1; b=$?
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD-FAILED
bash $tmp/demo/demo.sh >/tmp/w/demo_patched.log 2>&1; p=$?
t=skipped
if [ "$2" != notest ]; then
  bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/test.log 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/w/t.json'))
ps=set(t.get('passed',[]) if isinstance(t.get('passed'),list) else [k for k,v in t.items() if v=='passed'])
m=[x for x in b if x not in ps]
print('stable-ok' if not m else 'BROKE '+','.join(m[:4]))
P
)
fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; ./check $prop > /tmp/w/check_$id.log 2>&1; c=$?
cd /repo; git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf $tmp
echo "$id base=$b patched=$p tests=$t check=$c $(grep VIOLATION /tmp/w/check_$id.log | head -2 | sed 's/replay=[^ ]*replay\///')"
