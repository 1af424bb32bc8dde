#!/bin/bash
# tryseed.sh ID [PROPERTY...]: confirm a planted bug in a scratch copy (demo
# passes without it, build and stable tests pass with it, demo fails), then run
# the checks against it. Default: the property of its meta.json.
set -u
here=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
sd=$here/seeded/$id
props=("$@"); [ ${#props[@]} = 0 ] && props=($(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])"))
w=$(mktemp -d /tmp/tryseed-XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cp -a "$sd" "$w/demo"; rm -f "$w/demo/"*.diff "$w/demo/meta.json"
if [ -z "${SKIPDEMO:-}" ]; then
cd "$w/repo"
bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1 && echo "$id demo clean: ok" || { echo "$id demo clean: FAILS"; tail -20 "$w/clean.log"; exit 1; }
git apply "$sd/patch.diff" || exit 1
. /opt/vp/env.sh >/dev/null 2>&1; cd "$w/repo"
go build $PKGS || exit 1
go test -json -vet=off -count=1 $PKGS 2>/dev/null | python3 -c "
import sys,json
st=json.load(open('/opt/vp/BASELINE.json'))
txt=json.dumps(st)
bad=[]
for l in sys.stdin:
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='fail' and e.get('Test'): bad.append(e['Package']+'.'+e['Test'])
print('$id tests failing:',[b for b in bad if b.split('.')[-1] in txt])"
bash "$w/demo/demo.sh" >"$w/bug.log" 2>&1 && { echo "$id demo with bug: PASSES (bad)"; exit 1; } || { echo "$id demo with bug: fails (good)"; tail -${DEMOTAIL:-4} "$w/bug.log"; }
else cd "$w/repo"; git apply "$sd/patch.diff" || exit 1; fi
for p in "${props[@]}"; do
  out=$(HC_REPO=$w/repo bash "$here/check.sh" $p 2>&1); rc=$?
  echo "$id check $p: exit $rc: $(echo "$out" | grep -E '^VIOLATION|violations|HARNESS' | tail -2 | tr '\n' ' ')"
  if [ -n "${V:-}" ]; then echo "$out" | tail -${V}; fi
done
