#!/usr/bin/env python3
"""Survivor hunt: for a sample of mutants, those which build and pass the tests are given to every check.
usage: run.py OUT.jsonl N SEED [path regex]   (works on copies in /tmp/mw*)"""
import json,os,random,re,subprocess,sys,threading
out,n,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
rx=re.compile(sys.argv[4]) if len(sys.argv)>4 else None
W=int(os.environ.get('W','3'))
here=os.path.dirname(os.path.abspath(__file__))
env=dict(os.environ,GOPROXY='off',GOFLAGS='-mod=mod')
ms=[json.loads(l) for l in subprocess.run(['go','run',here+'/main.go','/repo'],stdout=subprocess.PIPE,env=env).stdout.splitlines()]
if os.environ.get('KINDS'): ms=[m for m in ms if m['Kind'] in os.environ['KINDS'].split(',')]
if rx: ms=[m for m in ms if rx.search(m['File'])]
random.Random(seed).shuffle(ms)
done=set()
if os.path.exists(out):
    for l in open(out): d=json.loads(l); done.add((d['File'],d['Start'],d['End'],d['New']))
ms=[m for m in ms if (m['File'],m['Start'],m['End'],m['New']) not in done][:n]
print(len(ms),'mutants')
lock=threading.Lock(); it=iter(ms)
base=json.load(open('/opt/vp/BASELINE.json'))
def run(c,cwd,t=300,e=None):
    try: p=subprocess.run(c,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=e or env); return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 99,''
def worker(i):
    d='/tmp/mw%d'%i
    subprocess.run('rm -rf %s; cp -a /repo %s; mkdir -p /tmp/mwv%d'%(d,d,i),shell=True)
    subprocess.run('cp /verif/known-findings.jsonl /tmp/mwv%d/'%i,shell=True)
    e=dict(env,GOFLAGS='-mod=readonly')
    while True:
        with lock:
            m=next(it,None)
        if m is None: break
        p=d+'/'+m['File']; s=open(p,'rb').read()
        new=s[:m['Start']]+m['New'].encode()+s[m['End']:]
        if m['Kind']=='nofield' and new[m['Start']:m['Start']+1]==b',': new=new[:m['Start']]+new[m['Start']+1:]
        open(p,'wb').write(new)
        r,o=run(['go','build','./...'],d,e=e)
        if r!=0: m['res']='nobuild'
        else:
            r,o=run(['go','test','-vet=off','-timeout','120s','-skip','^TestParseCredentialWithResource$','./...'],d,e=e)
            fails=set(re.findall(r'^\s*--- FAIL: (\S+)',o,re.M))
            known={'TestX'}
            m['fails']=sorted(fails)[:5]
            if [x for x in fails if x not in KNOWN] or 'build failed' in o or 'panic:' in o or r==99: m['res']='killed'
            else:
                r,o=run([BIN,'check','all'],d,900,dict(env,VERIF_REPO=d,VERIF_DIR='/tmp/mwv%d'%i,GOGC='200'))
                m['props']=sorted(set(re.findall(r'VIOLATION property=(\S+)',o))-{'C25'})
                m['res']='caught' if m['props'] else 'SURVIVED'
        open(p,'wb').write(s)
        with lock: open(out,'a').write(json.dumps(m)+'\n')
BIN=os.environ.get('BIN','/tmp/vcvm')
KNOWN=set(open('/tmp/knownfail').read().split()) if os.path.exists('/tmp/knownfail') else set()
ts=[threading.Thread(target=worker,args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
