#!/usr/bin/env python3
"""mkseed.py ID...: makes /verif/seeded/ID from tools/seeds.py in a scratch copy of /repo and confirms it:
the change builds, passes the tests, and the demonstration fails with it only."""
import os, subprocess, sys, json, shutil
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
V="/verif"; S="/tmp/seed"
DEMO='''#!/bin/bash
# Run with cwd /repo. Builds main.rs against the crate in the current directory, in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D"/*.rs "$T/src/"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
scale-decode = { path = "$R/scale-decode", features = ["derive", "primitive-types"] }
scale-type-resolver = { version = "0.2.0", default-features = false }
scale-bits = { version = "0.7.0", default-features = false }
primitive-types = { version = "0.13", default-features = false }
codec = { package = "parity-scale-codec", version = "3.0.0", features = ["derive"] }
X
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline -q
'''
PRE='''#![allow(dead_code, unused)]
mod reg;
use reg::*;
use scale_decode::visitor::types::*;
use scale_decode::visitor::*;
use scale_decode::*;
use scale_type_resolver::{Primitive, BitsOrderFormat, BitsStoreFormat};
'''
def sh(c,cwd,t=600): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
def main():
    for id in sys.argv[1:] or SEEDS:
        s=SEEDS[id]; d=f"{V}/seeded/{id}"
        if not os.path.exists(S+"/repo"): sh(f"mkdir -p {S}; cp -a /repo {S}/repo","/")
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD",S+"/repo")
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+"/demo.sh","w").write(DEMO); os.chmod(d+"/demo.sh",0o755)
        open(d+"/main.rs","w").write(PRE+s["demo"]); shutil.copy(V+"/oracle/src/reg.rs",d+"/reg.rs")
        a=sh(f"{d}/demo.sh",S+"/repo")
        for f,old,new in s["edits"]:
            p=f"{S}/repo/{f}"; t=open(p).read()
            assert old in t,(id,"not found",old)
            open(p,"w").write(t.replace(old,new,s.get("count",1)))
        b=sh("cargo test --offline --all --all-features 2>&1 | grep -E '^test result|FAILED|^error|panicked|failed' | sort | uniq -c",S+"/repo")
        c=sh(f"{d}/demo.sh",S+"/repo")
        diff=sh("git diff",S+"/repo").stdout; open(d+"/patch.diff","w").write(diff)
        json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
        ok=a.returncode==0 and c.returncode!=0 and "FAILED" not in b.stdout and "error" not in b.stdout
        print(id,"OK" if ok else "BAD","demo clean",a.returncode,"demo patched",c.returncode)
        print("   patched says:",c.stdout.strip().splitlines()[-3:][:3] if c.stdout else "")
        if not ok: print(a.stdout[-1500:],b.stdout[-1500:],c.stdout[-1500:])
main()
