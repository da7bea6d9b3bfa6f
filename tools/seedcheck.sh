#!/bin/bash
# seedcheck.sh ID...: confirms a planted bug in a scratch copy of /repo (applies, builds, stable tests pass, demo 0 -> nonzero)
for id in "$@"; do
d=/verif/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$w/repo"; mkdir "$w/demo"; for f in "$d"/*; do case "$f" in *.diff|*.patch|*/meta.json) ;; *) cp -a "$f" "$w/demo/";; esac; done
. /opt/vp/env.sh
cd "$w/repo" || exit 1
(timeout 300 bash "$w/demo/demo.sh" >"$w/o1" 2>&1); r1=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
go build ./... || { echo "$id: does not build"; continue; }
go test -json -vet=off -count=1 -timeout 10m ./... >"$w/t.json" 2>/dev/null
python3 /opt/vp/results.py "$w/res.json" gojson:"$w/t.json" >/dev/null 2>&1
bad=$(python3 - "$w/t.json" <<'PY'
import json,sys
st=set(x.split('/')[-1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Test'])
print(' '.join(sorted(st-ok)))
PY
)
(timeout 300 bash "$w/demo/demo.sh" >"$w/o2" 2>&1); r2=$?
echo "$id: demo unchanged=$r1 patched=$r2 failing stable tests: [$bad]"
[ $r1 -eq 0 ] || tail -5 "$w/o1"
[ $r2 -ne 0 ] || tail -5 "$w/o2"
cd /; rm -rf "$w"
done
