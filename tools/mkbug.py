#!/usr/bin/env python3
"""mkbug.py DEFS.py [ids...]: plant the bugs defined in DEFS.py in a scratch copy of /repo, confirm that they build,
pass the stable tests and are shown by their demonstration, and write them to /verif/seeded/<id>/."""
import sys,os,json,subprocess,shutil,runpy
defs=runpy.run_path(sys.argv[1])['BUGS']; only=sys.argv[2:]
W='/tmp/bugwork'
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd,cwd=W,timeout=900): return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout)
DEMO='''#!/bin/bash
# usage: demo.sh   (cwd: the repository, after its build)
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$R" || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$R/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
go test %(race)s -vet=off -count=1 -timeout 200s -overlay "$T/overlay.json" -run 'TestDemo$' ./%(pkg)s
'''
for b in defs:
    if only and b['id'] not in only: continue
    shutil.rmtree(W,ignore_errors=True); subprocess.check_call(['git','clone','-q','/repo',W])
    out='/verif/seeded/'+b['id']; os.makedirs(out,exist_ok=True)
    ok=True
    for f,old,new in b['edits']:
        p=f'{W}/{f}'; s=open(p).read()
        if s.count(old)<1: print(b['id'],'OLD NOT FOUND',f,repr(old[:60])); ok=False; break
        open(p,'w').write(s.replace(old,new,1))
    if not ok: continue
    sh('gofmt -l sql'); sh('gofmt -w '+' '.join(f for f,_,_ in b['edits']))
    d=sh('git diff').stdout; open(out+'/patch.diff','w').write(d)
    open(out+'/demo_test.go','w').write(b['demo'])
    open(out+'/demo.sh','w').write(DEMO%dict(pkg=b['pkg'],race='-race' if b.get('race') else '')); os.chmod(out+'/demo.sh',0o755)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(out+'/meta.json','w'),indent=1)
    # run in the copy: test.sh uses its cwd? env.sh decides
    r=sh('. /opt/vp/env.sh; cd '+W+' && go build ./... && go vet ./... 2>/dev/null; go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/bug.log; python3 /opt/vp/results.py /tmp/bug.json gojson:/tmp/bug.log')
    try: passed=set(json.load(open('/tmp/bug.json'))['passed'])
    except Exception as e: passed=set(); print(r.stderr[-2000:])
    miss=stable-passed
    dp=sh(f'bash {out}/demo.sh'); 
    sh('git checkout -q -- .')
    dc=sh(f'bash {out}/demo.sh')
    good=not miss and dp.returncode!=0 and dc.returncode==0
    print(b['id'],'OK' if good else 'BAD','tests missing',len(miss),list(miss)[:2],'demo patched',dp.returncode,'clean',dc.returncode,flush=True)
    if dp.returncode==0 or 'build failed' in dp.stdout: print(dp.stdout[-1500:],dp.stderr[-1500:])
    if dc.returncode!=0: print(dc.stdout[-1500:],dc.stderr[-1500:])
shutil.rmtree(W,ignore_errors=True)
