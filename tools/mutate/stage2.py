#!/usr/bin/env python3
"""stage2.py S1.jsonl OUT.jsonl PERCENT [PAR] [-all]: which checks notice the mutants that survived stage 1.
Stops at the first check that does, unless -all. With a former OUT as S1, only its unkilled ones are run."""
import json,os,subprocess,sys,tempfile,threading,queue,shutil
s1,out,pc=sys.argv[1:4]; par=int(sys.argv[4]) if len(sys.argv)>4 else 3
allc='-all' in sys.argv
R='/repo'
S=os.environ.get('SRC',R) # the sources that stage 1 had
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=readonly',GOWORK='off',CGO_ENABLED='0',PATH='/opt/veriftools/go1.24.13/bin:'+os.environ['PATH'],VERIF_SEED='1',VERIF_TIER='quick',VERIF_PERCENT=pc)
H='/tmp/mu/harness'
def order(m):
    f=m['file']; n=os.path.basename(f)
    if f.startswith('pkg/lockfile'):
        o=['C01','C02','C03','C04','C05','C20','C21','C18','C17','C19','C22']
        first={'parse-csv.go':'C05'}
        for k in 'composer gradle maven nuget'.split(): first[f'parse-{k}-lock.go']='C03'
        for k in 'poetry pipenv pdm uv pylock requirements-txt'.split():
            first[f'parse-{k}-lock.go']='C02'; first[f'parse-{k}.go']='C02'
        for k in 'gemfile go cargo mix pubspec renv'.split(): first[f'parse-{k}-lock.go']='C04'
        a=first.get(n)
        if a: o.remove(a); o.insert(0,a)
        return o
    if f=='main.go': return 'C17 C21 C18 C10 C09 C11 C24 C25 C14 C22 C08 C13 C15 C05 C12 C23 C20 C19 C06'.split()
    if 'semantic' in f: return 'C07 C06 C20 C19'.split()
    if 'configer' in f: return 'C10 C25 C11 C09 C17 C24 C23 C20 C18 C22'.split()
    if 'reporter' in f: return 'C18 C17 C19 C09 C08'.split()
    if 'api' in n: return 'C15 C25 C17 C14 C24 C08 C20 C19'.split()
    if n in('zip.go','cache.go'): return 'C13 C12 C14 C25 C24 C17 C20 C23 C19 C18'.split()
    return 'C06 C12 C08 C18 C25 C10 C13 C15 C17 C14 C24 C20 C07 C09 C19 C22'.split()
todo=[]
for l in open(s1):
    m=json.loads(l)
    if m['state']!='survived' or m.get('by'): continue
    if m['what'].startswith('string'): # wording of messages
        line=open(f"{S}/{m['file']}").read().splitlines()[m['line']-1]
        if ' ' in m.get('old',line) and any(x in line for x in('Errorf','errors.New','Print','Sprintf','color','Flag','Usage','flag.')) or 'error' in line.lower() or 'yaml:"' in line or 'json:"' in line: continue
    todo.append(m)
done=set()
if os.path.exists(out):
    for l in open(out):
        m=json.loads(l); done.add((m['file'],m['from'],m['to'],m['text']))
q=queue.Queue()
for m in todo:
    if (m['file'],m['from'],m['to'],m['text']) not in done: q.put(m)
print(q.qsize(),'to do')
lock=threading.Lock(); fo=open(out,'a')
def work():
    d=tempfile.mkdtemp(prefix='m2'); os.chmod(d,0o755)
    v=d+'/v'; os.makedirs(v)
    for x in('properties.jsonl','known-findings.txt'): shutil.copy('/verif/'+x,v)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        src=open(f"{S}/{m['file']}",'rb').read()
        open(d+'/m.go','wb').write(src[:m['from']]+m['text'].encode()+src[m['to']:])
        json.dump({"Replace":{f"{R}/{m['file']}":d+'/m.go'}},open(d+'/o.json','w'))
        r=subprocess.run(['go','build','-buildvcs=false','-trimpath','-overlay',d+'/o.json','-o',d+'/bin','.'],cwd=R,env=env,capture_output=True)
        by=[]; odd=[]
        if r.returncode: odd=['nobuild']
        else:
            for c in order(m):
                t=d+'/t'; os.makedirs(t,exist_ok=True)
                p=subprocess.run(['timeout','400',H,'-prop',c,'-bin',d+'/bin','-racebin',d+'/bin','-verif',v],env=dict(env,TMPDIR=t),capture_output=True,text=True)
                subprocess.run(['rm','-rf',t])
                if p.returncode==1:
                    by.append(c)
                    if not allc: break
                elif p.returncode: odd.append(f'{c}:{p.returncode}:{p.stderr[-200:]}')
        m['by']=by; m['odd']=odd
        with lock: fo.write(json.dumps(m)+'\n'); fo.flush()
    subprocess.run(['rm','-rf',d])
ts=[threading.Thread(target=work) for _ in range(par)]
[t.start() for t in ts]; [t.join() for t in ts]
