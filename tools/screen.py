#!/usr/bin/env python3
"""screen.py DEFS.py [ids...]: candidate bugs (id, property, [(file, old, new)]) in a scratch copy of /repo:
does the change build, do the stable tests still pass, and does the property's check report it? (development aid)"""
import sys,os,json,subprocess,shutil,runpy,time
defs=runpy.run_path(sys.argv[1])['B']; only=sys.argv[2:]
D=os.environ.get('SCREEN_DIR','/tmp/screen'); W=D+'/repo'; shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
subprocess.check_call(['git','clone','-q','/repo',W])
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env=dict(os.environ,DST_REPO=W,DST_BUILD=D+'/build',DST_GOCACHE='/verif/.build/gocache',VERIF_SEED=os.environ.get('VERIF_SEED','1'))
def sh(cmd,cwd=W,env=None): return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,env=env)
for b in defs:
    bid,props,edits=b[:3]
    if only and not any(bid.startswith(o) for o in only): continue
    sh('git checkout -q -- . ; git clean -qfd')
    ok=True
    for f,old,new in edits:
        p=f'{W}/{f}'; s=open(p).read()
        if old not in s: print(bid,'OLD NOT FOUND',f,repr(old[:70]),flush=True); ok=False; break
        open(p,'w').write(s.replace(old,new,1))
    if not ok: continue
    r=sh('. /opt/vp/env.sh; cd '+W+' && go build ./... 2>&1')
    if r.returncode: print(bid,'BUILD',r.stdout[:600],flush=True); continue
    sh('. /opt/vp/env.sh; cd '+W+' && go test -json -vet=off -count=1 -timeout 10m ./... > '+D+'/t.log; python3 /opt/vp/results.py '+D+'/t.json gojson:'+D+'/t.log')
    miss=stable-set(json.load(open(D+'/t.json'))['passed'])
    res=[]
    for p in props.split(','):
        t=time.time(); r=subprocess.run(['bash','check.sh',p,'quick'],cwd=os.environ.get('VERIF_DIR','/verif'),capture_output=True,text=True,env=env)
        l=[x for x in r.stdout.splitlines()]
        v=[l[i-1] for i,x in enumerate(l) if x.startswith('VIOLATION')]
        res.append(f"{p}:{ {0:'MISSED',1:'caught'}.get(r.returncode,'RC%d'%r.returncode)} {time.time()-t:.0f}s {v[0][:110] if v else r.stderr[-200:]}")
    print(bid,'tests-pass' if not miss else f'TESTS FAIL {len(miss)} {list(miss)[:1]}','|',' || '.join(res),flush=True)
shutil.rmtree(D,ignore_errors=True)
