#!/bin/bash
# tryseed.sh NAME [nocheck]: does /verif/seeded/NAME count as a planted bug, and is it caught?
set -u
n=$1; s=/verif/seeded/$n; w=/tmp/verif-seedtry
rm -rf /tmp/verif-seedtry; cp -a /repo "$w"
cd "$w" || exit 2
run() { # tests: prints failing stable tests
  go test -json -vet=off -count=1 ./... 2>/dev/null | python3 -c "
import sys,json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set()
for l in sys.stdin:
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and d.get('Test'): p.add(d['Package']+'/'+d['Test'])
print('stable tests failing:',sorted(b-p))"
}
d=/tmp/verif-seeddemo; rm -rf /tmp/verif-seeddemo; cp -a "$s" "$d"; rm -f /tmp/verif-seeddemo/patch.diff /tmp/verif-seeddemo/meta.json
( cd "$w" && bash "$d/demo.sh" >/tmp/seed-$n.base 2>&1 ); echo "demo unchanged: $?"
git apply "$s/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
go build ./... || { echo "DOES NOT BUILD"; exit 1; }
run
( cd "$w" && bash "$d/demo.sh" >/tmp/seed-$n.mut 2>&1 ); echo "demo with patch: $?"
if [ "${2:-}" != nocheck ]; then
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /verif; . ./env.sh
./bin/govc check -prop "$p" -tier quick -repo "$w" 2>&1 | grep -v "^ *\(model\|trace\|pc\|goal\)" | cut -c1-250 | tail -4
fi
rm -rf /tmp/verif-seedtry /tmp/verif-seeddemo
