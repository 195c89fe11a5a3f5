# Writes a planted bug to /verif/seeded/<id> from textual edits, after confirming it in a scratch copy.
import os, subprocess, shutil, json, tempfile
ROOT='/verif/seeded'
DEMO='''#!/bin/bash
# exit 0: the property holds in the tree at the current directory; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here/main.go.txt" "$t/main.go"
printf 'module demo\\n\\ngo 1.22\\n\\nrequire github.com/kodaimura/ddlparse v0.0.0\\n\\nreplace github.com/kodaimura/ddlparse => %s\\n' "$repo" > "$t/go.mod"
cd "$t" && go build RACE -o demo . || exit 3
timeout 60 ./demo
'''
HEAD='''package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	ddl "github.com/kodaimura/ddlparse"
)

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(s string, r ddl.Rdbms) []ddl.Table {
	ts, err := ddl.Parse(s, r)
	if err != nil {
		fail("rejected:", s, err)
	}
	return ts
}

func reject(s string, r ddl.Rdbms, near string, line int) {
	ts, err := ddl.Parse(s, r)
	if err == nil {
		fail("accepted:", s, ts)
	}
	v, ok := err.(ddl.ValidateError)
	if !ok || near != "" && v.Near != near || line > 0 && v.Line != line {
		fail("wrong error:", s, err)
	}
}

var (
	_ = must
	_ = reject
	_ = reflect.DeepEqual
	_ = strings.Repeat
	_ = time.Second
	_ sync.Mutex
	_ = json.Marshal
)

'''
def sh(c,cwd=None,t=200):
    try:
        r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
        return r.returncode,r.stdout+r.stderr
    except subprocess.TimeoutExpired: return 124,'timeout'
def stable_ok(d):
    base=json.load(open('/opt/vp/BASELINE.json'))
    rc,o=sh('. /opt/vp/env.sh; go vet ./... >/dev/null 2>&1; go test ./... -json',cwd=d)
    passed=set()
    for l in o.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Test'])
    s=json.dumps(base)
    names=[n for n in set(__import__('re').findall(r'Test\w+',s))]
    return [n for n in names if n not in passed]
def seed(id,prop,edits,needs,breaks,main,race=False,full=False):
    d=tempfile.mkdtemp(prefix='seed-'); 
    try:
        sh(f'cp -a /repo/. {d}/')
        for f,old,new in edits:
            p=os.path.join(d,f); s=open(p).read()
            assert s.count(old)>=1,(id,f,old)
            assert s.count(old)==1,(id,'ambiguous',f,old,s.count(old))
            open(p,'w').write(s.replace(old,new))
        rc,diff=sh('git diff',cwd=d)
        rc,o=sh('. /opt/vp/env.sh; go build ./...',cwd=d)
        if rc: print(id,'BUILD',o[:600]); return
        miss=stable_ok(d)
        if miss: print(id,'TESTS FAIL',miss); return
        out=os.path.join(ROOT,id); os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(diff)
        open(out+'/demo.sh','w').write(DEMO.replace('RACE','-race' if race else ''))
        os.chmod(out+'/demo.sh',0o755)
        open(out+'/main.go.txt','w').write(main if full else HEAD+main)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(out+'/meta.json','w'),indent=1)
        a,oa=sh(out+'/demo.sh',cwd='/repo'); b,ob=sh(out+'/demo.sh',cwd=d)
        ok=a==0 and b not in(0,3)
        print(id,prop,'ok' if ok else 'DEMO BAD clean=%d %s bug=%d %s'%(a,oa[:300],b,ob[:300]))
        if not ok: shutil.rmtree(out)
    finally: shutil.rmtree(d)
