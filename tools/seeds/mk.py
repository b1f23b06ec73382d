import os,subprocess,json,sys,shutil
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,files={}):
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,files=files))
exec(open('/verif/tools/seeds/bugs.py').read())
only=sys.argv[1:]
pre=open('/verif/tools/seeds/prelude.sh').read()
W='/tmp/w'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def fresh():
    sh(f'rm -rf {W}; cp -a /repo {W}')
env='export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0 CI=true;'
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])
for b in BUGS:
    if only and b['id'] not in only: continue
    d=f"/verif/seeded/{b['id']}"
    os.makedirs(d,exist_ok=True)
    open(d+'/demo.sh','w').write(pre+b['demo'].strip()+'\nexit 0\n'); os.chmod(d+'/demo.sh',0o755)
    for f,c in b['files'].items(): open(d+'/'+f,'w').write(c)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
    fresh()
    r0=sh(f'bash {d}/demo.sh',cwd=W)
    ok=True
    for f,o,n in b['edits']:
        s=open(f'{W}/{f}').read()
        if s.count(o)!=1: print(b['id'],'EDIT count',s.count(o),repr(o)); ok=False; break
        open(f'{W}/{f}','w').write(s.replace(o,n))
    if not ok: continue
    diff=sh('git diff',cwd=W).stdout
    open(d+'/patch.diff','w').write(diff)
    t=sh(env+'gofmt -l main.go pkg internal; go build ./... && TMPDIR=$(mktemp -d) go test -json -vet=off -count=1 ./... > /tmp/gt.json',cwd=W)
    res={}
    for l in open('/tmp/gt.json'):
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action') in('pass','fail') and 'Test' in e: res[e['Package']+'/'+e['Test']]=e['Action']
    lost=[x for x in stable if res.get(x)!='pass']
    r1=sh(f'bash {d}/demo.sh',cwd=W)
    print(b['id'],b['prop'],'clean',r0.returncode,'bug',r1.returncode,'| fails:',lost[:5],t.stdout.strip()[:300],t.stderr[-300:])
    if r0.returncode or r1.returncode!=1: print('   ',r0.stdout[-300:],r0.stderr[-300:],'|',r1.stdout[-300:],r1.stderr[-300:])
