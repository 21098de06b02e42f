#!/usr/bin/env python3
"""Shadow manifest: /repo's Cargo.toml with the library built as rlib only (a no-std
cdylib cannot link without a panic handler) and sources taken from /repo/src in place."""
import re,sys,os
repo,dst=sys.argv[1],sys.argv[2]
t=open(os.path.join(repo,"Cargo.toml")).read()
# drop bench/test/example targets and dev-dependencies
out=[];skip=False
for line in t.splitlines():
    m=re.match(r'\s*\[+([^\]]+)\]+\s*$',line)
    if m:
        name=m.group(1).strip()
        skip=name in("bench","test","example","dev-dependencies","lib","profile.dev","profile.release","workspace","build-dependencies") 
        if name=="lib": out.append('[lib]\nname = "interpn"\npath = "%s/src/lib.rs"\ncrate-type = ["rlib"]\n'%repo)
    if not skip: out.append(line)
t="\n".join(out)+"\n"
t=re.sub(r'^\s*readme\s*=.*\n','',t,flags=re.M)
t=re.sub(r'^\s*build\s*=.*\n','',t,flags=re.M)
if len(sys.argv)>3:
    # the binding layer, against the models of pyo3 and numpy in pystub/
    stub=sys.argv[3]
    t=re.sub(r'(?ms)^\[+(patch|lints|workspace)[^\]]*\]+\s*\n.*?(?=^\[|\Z)','',t)
    t+='''
[workspace]
[patch.crates-io]
pyo3 = { path = "%s/pyo3" }
numpy = { path = "%s/numpy" }
[profile.dev]
opt-level = 3
debug = "line-tables-only"
overflow-checks = true
debug-assertions = false
panic = "abort"
codegen-units = 1
incremental = false
[profile.dev.build-override]
opt-level = 0
debug = false
'''%(stub,stub)
os.makedirs(dst,exist_ok=True)
p=os.path.join(dst,"Cargo.toml")
if not(os.path.exists(p) and open(p).read()==t): open(p,"w").write(t)
