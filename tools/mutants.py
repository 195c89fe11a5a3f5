#!/usr/bin/env python3
"""mutants.py MUTS.jsonl PHASE1.jsonl OUT.jsonl WORKERS CHECK SOFT [LIMIT]
Runs one check (or the pseudo-check ALL) against scratch copies of /repo with one mutant each, for those
mutants that survive the repository's own tests. Scratch copies live under /tmp/mt and are removed."""
import json,os,subprocess,shutil,sys,threading,queue,re,time
mutsf,p1,outf,W,check,soft=sys.argv[1],sys.argv[2],sys.argv[3],int(sys.argv[4]),sys.argv[5],sys.argv[6]
limit=int(sys.argv[7]) if len(sys.argv)>7 else 10**9
muts=[json.loads(l) for l in open(mutsf)]
todo=[json.loads(l)['i'] for l in open(p1) if '"pass"' in l][:limit]
done=set()
if os.path.exists(outf):
    done={json.loads(l)['i'] for l in open(outf)}
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off',GOTOOLCHAIN='local',MC_SOFT=soft,GOMAXPROCS=os.environ.get('MUT_PROCS','2'))
q=queue.Queue()
for i in todo:
    if i not in done: q.put(i)
lock=threading.Lock(); fo=open(outf,'a')
def sh(cmd,cwd,e,t):
    try:
        p=subprocess.run(cmd,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
        return p.returncode,p.stdout.decode('utf8','replace')
    except subprocess.TimeoutExpired: return 124,''
def worker(w):
    d=f'/tmp/mt/p{os.getpid()}_{w}'; os.makedirs(d)
    subprocess.run(['cp','-a','/repo',d+'/repo']); shutil.copytree('/verif/mc',d+'/mc')
    g=open(d+'/mc/go.mod').read().replace('=> /repo','=> '+d+'/repo'); open(d+'/mc/go.mod','w').write(g)
    shutil.copy('/verif/known-findings.txt',d); os.makedirs(d+'/evidence')
    gc=d+'/gc'; shutil.copytree('/tmp/mt/gocache_base',gc)
    e=dict(env,GOCACHE=gc,MC_ROOT=d); n=0
    while True:
        try: i=q.get_nowait()
        except queue.Empty: break
        m=muts[i]; fn=d+'/repo/'+m['file']; src=open('/repo/'+m['file'],'rb').read()
        open(fn,'wb').write(src[:m['start']]+m['repl'].encode()+src[m['end']:])
        t=time.time()
        rc,o=sh(['go','build','-o',d+'/bin','.'],d+'/mc',e,120)
        if rc==0: rc,o=sh([d+'/bin','run',check,'quick'],d,e,float(soft)+300)
        else: rc=99
        open(fn,'wb').write(src)
        shutil.rmtree(d+'/replays',ignore_errors=True)
        mm=[l for l in o.split('\n') if 'VIOLATION' in l or 'violation' in l]
        with lock:
            fo.write(json.dumps({'i':i,'rc':rc,'t':round(time.time()-t,1),'o':(mm[0] if mm else o[-200:])[:300]})+'\n'); fo.flush()
        n+=1
        if n%100==0: shutil.rmtree(gc); shutil.copytree('/tmp/mt/gocache_base',gc)
    shutil.rmtree(d)
ts=[threading.Thread(target=worker,args=(w,)) for w in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
