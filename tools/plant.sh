#!/bin/bash
# plant.sh ID [nocheck]: confirms the planted bug seeded/ID (development aid).
# With local edits in /repo they become seeded/ID/patch.diff; afterwards the
# tree is clean again.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
if ! git diff --quiet; then git diff > $d/patch.diff; git checkout -q -- .; fi
bash /opt/vp/build.sh >/tmp/plant.b 2>&1 || { echo "clean build failed"; exit 1; }
bash $d/demo.sh >/tmp/plant.d0 2>&1; c=$?
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/plant.b 2>&1; b=$?
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.t 2>&1
f=$(python3 - <<'P'
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/plant.json'))['passed'])
print(len(s-p), sorted(s-p)[:3])
P
)
bash $d/demo.sh >/tmp/plant.d1 2>&1; m=$?
k=-
if [ "$2" != nocheck ]; then
  cd /verif; python3 check.py $prop > /tmp/plant.c 2>&1; k=$?; cd /repo
fi
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/plant.b 2>&1
echo "$id [$prop]: build=$b tests_missing=$f demo clean=$c patched=$m  check_exit=$k"
[ $c = 0 ] || tail -3 /tmp/plant.d0
[ $m != 0 ] || tail -3 /tmp/plant.d1
grep -E "^VIOL|ERROR|distinct" /tmp/plant.c | head -5
