#!/usr/bin/env python3
"""cand.py FILE.py [pattern] [check ...]: tries candidate bugs (list BUGS of (id, property, [(file, old, new)...]))
in scratch copies: builds, runs the repository's tests, and the property's quick check."""
import sys,os,subprocess,shutil,json,time,importlib.util
from concurrent.futures import ThreadPoolExecutor
spec=importlib.util.spec_from_file_location('c',sys.argv[1]);mod=importlib.util.module_from_spec(spec);spec.loader.exec_module(mod)
pat=sys.argv[2] if len(sys.argv)>2 else ''
checks=sys.argv[3:]
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off',GOTOOLCHAIN='local')
def sh(c,cwd,t,e=env):
    try:
        r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t,env=e);return r.returncode,r.stdout+r.stderr
    except subprocess.TimeoutExpired: return 124,'timeout'
def run(b):
    id,prop,edits=b[:3]
    d=f'/tmp/cand_{os.getpid()}_{id}';os.makedirs(d+'/evidence')
    try:
        sh(f'cp -a /repo {d}/repo; cp -a /verif/mc {d}/mc; cp /verif/known-findings.txt {d}; sed -i "s#=> /repo#=> {d}/repo#" {d}/mc/go.mod',None,60)
        for f,o,n in edits:
            p=d+'/repo/'+f;s=open(p).read()
            if s.count(o)<1: return f'{id} EDIT NOT FOUND {f}: {o[:60]!r}'
            open(p,'w').write(s.replace(o,n,1))
        rc,o=sh('go build ./... && go test -count=1 ./...',d+'/repo',120)
        if rc: return f'{id} TESTS FAIL: {o[-300:]}'
        rc,o=sh(f'go build -o {d}/bin .',d+'/mc',120)
        if rc: return f'{id} BUILD {o[-300:]}'
        res=[]
        for c in checks or [prop]:
            t=time.time();rc,o=sh(f'{d}/bin run {c} quick',d,900,dict(env,MC_ROOT=d,MC_REPO=d+"/repo"))
            res.append(f'{c}:{"CAUGHT" if rc==1 else "missed" if rc==0 else rc} {time.time()-t:.0f}s')
        return f'{id} {prop} '+' '.join(res)
    finally: shutil.rmtree(d,ignore_errors=True)
bs=[b for b in mod.BUGS if pat in b[0]]
with ThreadPoolExecutor(int(os.environ.get('J','2'))) as ex:
    for r in ex.map(run,bs): print(r,flush=True)
