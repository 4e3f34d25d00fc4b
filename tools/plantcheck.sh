#!/bin/bash
# bash tools/plantcheck.sh ID [nocheck]: confirm a planted bug in /repo (applied, then undone).
id=$1; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.clean 2>&1); c=$?
git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
t=$(bash /root/bt.sh 2>&1 | grep baseline)
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.patched 2>&1); p=$?
if [ "$2" != nocheck ]; then
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh $prop >/tmp/plant.$id.out 2>&1); r=$?
  v=$(grep -m1 VIOLATION /tmp/plant.$id.out; grep -m1 '  case' /tmp/plant.$id.out)
fi
git -C /repo checkout -- .
echo "$id ($prop): demo clean=$c patched=$p; $t; check rc=$r $v"

[ "$2" = nocheck ] || python3 - "$id" "$prop" "$r" "$v" "$c" "$p" "$t" <<'PY'
import json, sys
i, prop, r, v, c, pt, t = sys.argv[1:]
f = '/verif/tools/caught.json'
try:
    d = json.load(open(f))
except FileNotFoundError:
    d = {}
key = v.split('key ')[-1].strip() if 'key ' in v else ''
ok = c == '0' and pt != '0' and 'lost: []' in t
verdict = ('caught, monitor `%s`' % key) if r == '1' and 'VIOLATION property=%s ' % prop in v else 'MISSED'
d[i] = {'property': prop, 'verdict': verdict, 'needs': json.load(open('/verif/seeded/%s/meta.json' % i))['needs']}
if ok:
    json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
PY
