#!/usr/bin/env python3
"""vacuity.py OUT.rs REP.json: puts assert(false) at the start of every extracted body; each of them has to fail.
Lists the bodies where it does not (contradictory preconditions or axioms)."""
import sys,re,json,subprocess,os
src=open(sys.argv[1]).read(); rep=json.load(open(sys.argv[2]))
out=re.sub(r"(broadcast use (?:crate::rules::all|\{crate::rules::walk[^}]*\});)[ ]*\n",r"\1 assert(false);\n",src)
p=os.path.dirname(os.path.abspath(sys.argv[1]))+"/vacuity.rs"
open(p,"w").write(out)
r=subprocess.run(["verus","--triggers-mode","silent","--multiple-errors","1","--num-threads","8","--error-format=json",p],capture_output=True,text=True)
hit=set()
for l in r.stderr.splitlines():
    if l.startswith("{"):
        d=json.loads(l)
        if d["message"]=="assertion failed":
            for s in d["spans"]: hit.add(s["line_start"])
lines=out.splitlines(); bad=[]; n=0; key=None
for i,l in enumerate(lines,1):
    m=re.search(r"/\*@F:(.*?)@\*/",l)
    if m: key=m.group(1)
    if "; assert(false);" in l and "broadcast use" in l and key:
        n+=1
        if i not in hit: bad.append(key)
print(n,"bodies;","not refuted:",bad)
