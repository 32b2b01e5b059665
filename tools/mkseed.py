#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds seeded/<id>/ from edits (helper for planting bugs).
SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], pkg, demo)]"""
import sys,os,json,subprocess,shutil,runpy
S='/verif/seeded'
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if len(sys.argv)>2 and s['id'] not in sys.argv[2:]: continue
    w='/tmp/mkseed.'+s['id']; subprocess.run(['git','-C','/repo','worktree','remove','--force',w],stderr=subprocess.DEVNULL)
    subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',w,'HEAD'])
    for f,o,n in s['edits']:
        p=w+'/'+f; t=open(p).read(); assert t.count(o)==1,(s['id'],f,t.count(o)); open(p,'w').write(t.replace(o,n))
    d=S+'/'+s['id']; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',w,'diff']).decode())
    subprocess.run(['git','-C','/repo','worktree','remove','--force',w])
    open(d+'/demo_test.go.txt','w').write(s['demo'])
    pkg=s['pkg']
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Runs the demonstration test inside package ./{pkg} of the current directory.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
. /opt/vp/env.sh; cd "$R"
cp "$D/demo_test.go.txt" "$T/zz_demo_test.go"
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/zz_demo_test.go"}}}}' "$R" "$T" > "$T/overlay.json"
go test -vet=off -overlay "$T/overlay.json" -run '^TestZZDemo$' -count=1 -timeout 120s ./{pkg}
''')
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    print(s['id'])
