#!/bin/bash
# seedcheck.sh ID [--notest]: confirms a planted bug in a scratch copy of /repo:
# applies, builds, demo passes without and fails with it, stable tests still pass.
set -u
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedcheck.$ID
rm -rf "/tmp/seedcheck.$ID"; mkdir -p "$W"; cp -a /repo "$W/repo"
mkdir -p "$W/vp"; for f in env.sh build.sh test.sh results.py; do sed "s#/repo#$W/repo#g; s#/opt/vp/#$W/vp/#g" /opt/vp/$f > "$W/vp/$f"; done
mkdir -p "$W/demo"; cp -a "$S"/. "$W/demo/"; /bin/rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
git -C "$W/repo" checkout -q -- .
cd "$W/repo"
bash "$W/vp/build.sh" >/dev/null 2>&1 || echo "$ID: base build fails"
timeout 300 bash "$W/demo/demo.sh" > "$W/demo0.log" 2>&1; r0=$?
git apply "$S/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
bash "$W/vp/build.sh" > "$W/build.log" 2>&1 || { echo "$ID: BUILD FAILS"; cat "$W/build.log"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" > "$W/demo1.log" 2>&1; r1=$?
echo "$ID: demo unpatched=$r0 patched=$r1"
[ $r0 = 0 ] || tail -30 "$W/demo0.log"
[ $r1 != 0 ] || tail -30 "$W/demo1.log"
if [ "${2:-}" != --notest ]; then
  bash "$W/vp/test.sh" "$W/out.json" > "$W/test.log" 2>&1
  python3 - "$W/out.json" "$ID" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
p=set(o.get('passed') or o.get('pass') or [])
miss=sorted(b-p); print(sys.argv[2],'stable tests failing:',len(miss),miss[:10], '' if p else list(o))
P
fi
cd /; rm -rf "/tmp/seedcheck.$ID"
