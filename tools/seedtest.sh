#!/bin/bash
# seedtest.sh ID [build|full|check]: try the planted bug /verif/seeded/ID in a scratch copy
# bind-mounted over /repo in a private mount namespace.
id=$1; mode=${2:-full}
S=/verif/seeded/$id; W=/tmp/seed-$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W
[ -d $W/repo ] || cp -a /repo $W/repo
cp -a $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
git -C $W/repo checkout -q -- .
git -C $W/repo apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
unshare -Urm bash -c "
mount --bind $W/repo /repo; cd /repo
if [ $mode != check ]; then
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo '$id: BUILD FAILED'; tail -5 $W/build.log; exit 1; }
timeout 300 bash $W/demo/demo.sh >$W/demo.bad 2>&1; echo \"$id: demo with patch exit \$? (want nonzero): \$(tail -1 $W/demo.bad | cut -c1-150)\"
fi
if [ $mode = full ]; then
bash /opt/vp/test.sh $W/res.json >$W/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('$W/res.json'))
st=b.get('stable') or b.get('passed') or b
p=set(r['passed']); miss=[t for t in st if t not in p]
print('$id: stable tests failing with patch:',len(miss),miss[:5])
P
fi
cd /verif; [ $mode = build ] || { VERIF_SEED=1 timeout 900 python3 run.py $prop > $W/check.log 2>&1; echo \"$id: check $prop exit \$?: \$(grep VIOLATION $W/check.log | head -2 | cut -c1-150 | tr '\n' ' ')\"; }
"
if [ $mode != check ]; then
git -C $W/repo checkout -q -- .
unshare -Urm bash -c "mount --bind $W/repo /repo; cd /repo; bash /opt/vp/build.sh >$W/build.log 2>&1; timeout 300 bash $W/demo/demo.sh >$W/demo.good 2>&1; echo \"$id: demo without patch exit \$? (want 0): \$(tail -1 $W/demo.good | cut -c1-150)\""
fi
python3 -c "import shutil;shutil.rmtree(\"$W\")"
