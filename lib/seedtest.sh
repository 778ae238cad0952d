#!/bin/bash
# seedtest.sh ID [notest]: applies a planted bug to /repo, checks that it builds, passes the stable tests, fails its demo and is caught; undoes it
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain -uno)" ] || { echo "repo not clean"; exit 9; }
bash "$d/demo.sh" >/tmp/seed.out 2>&1 && a=ok || a="DEMO FAILS ON CLEAN TREE"
git apply "$d/patch.diff" || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
bash "$d/demo.sh" >/tmp/seed.out 2>&1 && b="DEMO PASSES WITH BUG" || b=ok
t=skipped; [ "$2" = notest ] || { bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1; t=$(python3 -c "
import json;d=json.load(open('/tmp/seed.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable'];print('ok' if set(s)<=set(d['passed']) else 'TESTS FAIL '+str(sorted(set(s)-set(d['passed']))))"); }
c=$(cd /verif; timeout 900 ./check.py $p quick 2>&1); grep -q "^VIOLATION property=$p " <<<"$c" && v=caught || v="MISSED $(tail -1 <<<"$c")"
echo "$1 [$p] clean:$a bug:$b tests:$t check:$v"
