#!/bin/bash
# usage: tools/seedtest.sh ID [notests]  -- confirm a planted change: applies, demo passes without and fails with it, tests pass
id=$1; s=/verif/seeded/$id
w=$(mktemp -d /tmp/seedwt.XXXXXX); cp -a /repo "$w/repo"; d=$w/demo; cp -a "$s" "$d"; rm -f "$d"/*.diff "$d"/meta.json
export PYTHONPATH=$w/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen HOME=/root PYTHONNOUSERSITE=1 OMP_NUM_THREADS=1
cd "$w/repo" && git checkout -q -- . 
timeout 300 bash "$d/demo.sh" > "$w/clean.out" 2>&1; c=$?
git apply "$s/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "${w:?}"; exit 1; }
timeout 300 bash "$d/demo.sh" > "$w/bug.out" 2>&1; b=$?
echo "$id: demo clean=$c bug=$b"
[ "$c" = 0 ] || tail -20 "$w/clean.out"
[ -n "$2" ] || tail -3 "$w/bug.out"
if [ -z "$2" ]; then
  PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --basetemp="$w/tmp" -o junit_family=xunit2 --junitxml="$w/junit.xml" tests > "$w/t.out" 2>&1
  python3 /opt/vp/results.py "$w/res.json" "junit:$w/junit.xml"
  python3 - "$w/res.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def lst(x):
    for k in ("stable","passed","tests","pass"):
        if k in x: return set(x[k])
    return set()
miss=lst(b)-lst(r)
print(sys.argv[2],"tests: missing",len(miss),sorted(miss)[:3], "of", len(lst(b)))
P
fi
cd /; rm -rf "${w:?}"
