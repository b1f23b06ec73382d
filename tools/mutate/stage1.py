#!/usr/bin/env python3
"""stage1.py OUT.jsonl [PAR]: which mutants of /repo compile and pass the stable tests."""
import json,os,subprocess,sys,tempfile,threading,queue
out=sys.argv[1]; par=int(sys.argv[2]) if len(sys.argv)>2 else 4
R='/repo'
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=readonly',GOWORK='off',CGO_ENABLED='0',CI='true',PATH='/opt/veriftools/go1.24.13/bin:'+os.environ['PATH'])
b=json.load(open('/opt/vp/BASELINE.json')); stable=set(b['stable'])
files=[f for f in subprocess.check_output(['git','ls-files','*.go'],cwd=R,text=True).split() if not f.endswith('_test.go')]
only=sys.argv[3:] 
if only: files=[f for f in files if f in only]
muts=[]
for f in files:
    for l in subprocess.check_output(['/tmp/mutate',f],cwd=R,text=True).splitlines(): muts.append(json.loads(l))
done=set()
if os.path.exists(out):
    for l in open(out):
        m=json.loads(l); done.add((m['file'],m['from'],m['to'],m['text']))
q=queue.Queue()
for m in muts:
    if (m['file'],m['from'],m['to'],m['text']) not in done: q.put(m)
lock=threading.Lock(); fo=open(out,'a')
def work():
    d=tempfile.mkdtemp(prefix='mu')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        src=open(f"{R}/{m['file']}",'rb').read()
        new=src[:m['from']]+m['text'].encode()+src[m['to']:]
        open(d+'/m.go','wb').write(new)
        json.dump({"Replace":{f"{R}/{m['file']}":d+'/m.go'}},open(d+'/o.json','w'))
        r=subprocess.run(['go','build','-buildvcs=false','-overlay',d+'/o.json','-o',d+'/bin','.'],cwd=R,env=env,capture_output=True,text=True)
        if r.returncode: m['state']='nocompile'
        else:
            os.makedirs(d+'/t',exist_ok=True)
            try:
                r=subprocess.run(['timeout','60','go','test','-json','-vet=off','-count=1','-overlay',d+'/o.json','./...'],cwd=R,env=dict(env,TMPDIR=d+'/t'),capture_output=True,text=True)
                res={}
                for l in r.stdout.splitlines():
                    try: e=json.loads(l)
                    except Exception: continue
                    if e.get('Action') in('pass','fail') and 'Test' in e: res[e['Package']+'/'+e['Test']]=e['Action']
                lost=[x for x in stable if res.get(x)!='pass']
                m['state']='killed' if lost else 'survived'
            except Exception as e: m['state']='error '+str(e)
            subprocess.run(['rm','-rf',d+'/t'])
        with lock: fo.write(json.dumps(m)+'\n'); fo.flush()
    subprocess.run(['rm','-rf',d])
ts=[threading.Thread(target=work) for _ in range(par)]
[t.start() for t in ts]; [t.join() for t in ts]
