#!/usr/bin/env python3
"""mutants.py N SEED [area...]: a random sample of N small source changes of /repo that compile and pass the stable tests, and what the checks of
the area say. Survivors are for reading, not all are bugs. (development aid)"""
import sys,os,json,subprocess,shutil,random,time,glob
N,seed,areas=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3:]
D=os.environ.get('SCREEN_DIR','/tmp/mutants'); W=D+'/repo'; shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
subprocess.check_call(['git','clone','-q','/repo',W])
V=os.environ.get('VERIF_DIR','/verif')
A={'net':(['sql/net/*.go'],['C01','C02','C03','C04','C05']),
'fn':(['sql/fn/aggr*.go','sql/fn/groupby.go','sql/fn/count.go','sql/fn/sum.go','sql/fn/avg.go','sql/fn/min.go','sql/fn/max.go','sql/fn/resultset*.go','sql/fn/orderby.go'],['C09','C10','C08']),
'exec':(['sql/fn/func*.go','sql/fn/exec*.go','sql/fn/arg*.go','sql/fn/time*.go','sql/fn/math*.go','sql/fn/arith*.go','sql/fn/string*.go'],['C12','C13','C08','C11','C14']),
'rs':(['sql/query/response/resultset/*.go'],['C11','C09','C10','C17']),
'query':(['sql/query/schema*.go','sql/query/column*.go','sql/query/index*.go','sql/query/literal*.go','sql/query/table*.go','sql/query/selector*.go','sql/query/data*.go','sql/query/alter_table*.go','sql/query/drop_index*.go'],['C15','C08','C16','C06','C14']),
'stmt':(['sql/stmt/*.go','sql/system/*.go'],['C16','C17']),
'parser':(['sql/parser/sqlite/parser*.go'],['C06','C07'])}
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env=dict(os.environ,DST_REPO=W,DST_BUILD=D+'/build',DST_GOCACHE='/verif/.build/gocache',VERIF_SEED='1')
def sh(cmd,cwd=W,env=None): return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,env=env)
subprocess.check_call(['go','build','-o',D+'/mutate','.'],cwd='/verif/tools/mutate',env=dict(os.environ,GO111MODULE='off'))
L=[]
for a in (areas or A):
    fs=sorted({f for p in A[a][0] for f in glob.glob(W+'/'+p) if not f.endswith('_test.go')})
    for l in subprocess.check_output([D+'/mutate']+fs,text=True).splitlines():
        m=json.loads(l); m['area']=a
        if m['fn'] in('String',) or 'Errorf' in m['what']: continue
        L.append(m)
random.Random(seed).shuffle(L); print(len(L),'changes',flush=True)
n=0
for m in L:
    if n>=N: break
    sh('git checkout -q -- .')
    s=open(m['file'],'rb').read(); open(m['file'],'wb').write(s[:m['off']]+m['new'].encode()+s[m['end']:])
    if sh('. /opt/vp/env.sh; cd '+W+'; go build ./...').returncode: continue
    sh('. /opt/vp/env.sh; cd '+W+'; go test -json -vet=off -count=1 -timeout 3m ./... > '+D+'/t.log; python3 /opt/vp/results.py '+D+'/t.json gojson:'+D+'/t.log')
    if stable-set(json.load(open(D+'/t.json'))['passed']): continue
    n+=1; res='SURVIVED'
    for p in A[m['area']][1]:
        r=subprocess.run(['bash','check.sh',p,'quick'],cwd=V,capture_output=True,text=True,env=env)
        if r.returncode==1:
            l=r.stdout.splitlines(); res=p+' '+next((l[i-1] for i,x in enumerate(l) if x.startswith('VIOLATION')),'')[:60]; break
        if r.returncode: res='RC%d %s %s'%(r.returncode,p,(r.stdout+r.stderr)[-150:].replace('\n',' ')); break
    print(f"{m['file'][len(W)+1:]}:{m['line']} {m['fn']}: {m['what'][:90]!r} => {res}",flush=True)
shutil.rmtree(D,ignore_errors=True)
