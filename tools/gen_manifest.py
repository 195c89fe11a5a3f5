#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF="exhaustive bounded enumeration of the reference grammar machine's behaviours, each replayed on the real parser and compared"
note="Every text of the stated bounded space runs through the real, rebuilt code; the reference model (mc/gram.go, spec.go, tok.go) is trusted to state the documented grammar; texts it leaves open are not judged. Nothing is sampled."
T={
"C01":("exhaustive enumeration of inputs (all grammar states x all tokens, all short character strings, all truncations) on the real parser under crash, hang and memory monitors","Every input of the bounded space is executed; a panic, stack overflow, 40 s hang or memory run-away in any of them is a violation. Trusts the Go runtime; inputs beyond the bounds are not covered."),
"C03":(REF+" on error token and line",note),
"C04":("exhaustive enumeration of layouts: every separator at every gap of the document set, executed pairwise on the real parser","Each laid-out text must give what the plain layout gives, and what the model says. "+note),
"C05":("exhaustive enumeration of quoted contents over a sharp alphabet in every quoted position, against the model",note),
"C13":("exhaustive enumeration of unreported clauses in every place, pairwise execution with and without the clause",note),
"C17":("exhaustive enumeration of case patterns per keyword occurrence, pairwise execution on the real parser",note),
"C18":("exhaustive enumeration of texts through all seven entry points on the real code",note),
"C19":("explicit-state exploration of call histories: every sequence of calls up to the depth in a fresh process of the real code","The state is the process; every history over the call alphabet up to the depth is executed with and without modifying results, and every grammar state is used as predecessor of every probe call. State that only shows after longer or other histories is not covered."),
"C20":("stateless model checking of the instrumented code under a controlled scheduler: all placements of up to k preemptions, plus happens-before race detection in each explored schedule","The instrumented copy is made from /repo's tree at every run and its calls, alone, are compared with the uninstrumented code. Bounds: 2 or 3 threads, 1 preemption at statements, 3 at shared-state points. If the code starts goroutines of its own, only an uncontrolled race-detector pass is made and the evidence says so."),
"C21":("exhaustive enumeration of pairs of texts, executed separately and concatenated on the real parser",note),
"C22":("exhaustive enumeration of texts; each result's JSON compared with the documented shape and read back",note),
"C24":("exhaustive enumeration of sizes along every dimension against the model",note),
}
ids=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
checks=[]
for i in ids:
    t,n=T.get(i,(REF,note))
    checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",technique="model checking: "+t,level="model_checking",level_note=n))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[],notes="No hooks in /repo: the checks drive the public API; C20 instruments a scratch copy of /repo's tree at run time.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
