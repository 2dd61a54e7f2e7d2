#!/bin/bash
# tools/seed.sh <id> [nocheck]: confirm a planted change in a scratch copy, then run its property's check against it.
. /opt/vp/env.sh
id="$1"; d=/verif/seeded/$id
[ -f $d/demo.sh ] || cp /verif/tools/demo.sh.tmpl $d/demo.sh
w=$(mktemp -d /tmp/seedXXXX); cp -a /repo/. $w/; cd $w || exit 1
git checkout -q -- .
bash $d/demo.sh >/tmp/demo_clean.log 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -20 /tmp/demo_clean.log; }
git apply $d/patch.diff || { echo "APPLY FAIL"; rm -rf "$w"; exit 1; }
go build ./... || echo "BUILD FAIL"
go test -json -vet=off -count=1 ./... > $w/log.json 2>/dev/null
python3 - $w/log.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));k=[k for k in b if 'pass' in k or 'stable' in k][0]
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and 'Test' in e: ok.add(e['Test'])
miss=[t for t in b[k] if t.split('::')[-1].split(' ')[-1] not in ok and not any(t.endswith(o) for o in ok)]
print("tests missing:",miss[:5],len(ok))
P
bash $d/demo.sh >/tmp/demo_bug.log 2>&1 && echo "demo bug: PASSES (bad)" || { echo "demo bug: fails (good)"; grep -m3 -E "zz_demo|demo_test|panic" /tmp/demo_bug.log; }
cd /; rm -rf "$w"
[ "$2" = nocheck ] && exit 0
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in ${2:-$prop}; do
(cd /verif; timeout 900 bash check.sh $p quick > /tmp/seed_$id.$p.log 2>&1; echo "check $p exit $?"; grep -m2 -A1 VIOLATION /tmp/seed_$id.$p.log)
done
