#!/usr/bin/env python3
"""mkseed.py SPEC.py : builds /verif/seeded/<id>/ from a description, in a scratch copy of /repo, and confirms it
(applies, builds, stable tests pass, demo passes without and fails with the change)."""
import sys, os, json, subprocess, shutil, runpy
V="/verif"; S="/tmp/seedwork"
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",**k)
DEMO='''#!/bin/bash
# Builds a small program against the repository's sources and runs it.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'find "$t" -delete' EXIT
c=$PWD/src/core
%s
'''
CPP='''g++ -std=c++11 -O1 -funsigned-char -fno-access-control -DCENTAURUS_BUILD_LINUX %s -w -I"$c" "$d/demo.cpp" %s -o "$t/demo" -lpthread -lrt || exit 3
timeout 100 "$t/demo"'''
def stable():
    b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("/tmp/seed_o.json"))
    def names(x):
        if isinstance(x,dict):
            for k in("passed","stable","tests","pass"):
                if k in x: x=x[k]; break
        return [t if isinstance(t,str) else t.get("name") for t in x] if isinstance(x,list) else [k for k,v in x.items() if v in("pass","passed",True)]
    return [t for t in names(b) if t not in names(o)]
def main(f):
    g=runpy.run_path(f)
    only=sys.argv[2:]
    for s in g["SEEDS"]:
        if only and s["id"] not in only: continue
        d=os.path.join(V,"seeded",s["id"]); os.makedirs(d,exist_ok=True)
        assert sh("git -C /repo status --porcelain").stdout.strip()=="" , "repo dirty"
        ok=True; diff=""
        try:
            for fn,old,new in s["edits"]:
                p=os.path.join("/repo",fn); t=open(p,newline="").read()
                crlf="\r\n" in t
                if crlf: old=old.replace("\n","\r\n"); new=new.replace("\n","\r\n")
                if t.count(old)!=s.get("count",1): print(s["id"],"edit matches",t.count(old),"times in",fn); ok=False; break
                open(p,"w",newline="").write(t.replace(old,new))
            diff=sh("git -C /repo diff").stdout
        finally: sh("git -C /repo checkout -- .")
        if not ok: continue
        open(d+"/patch.diff","w",newline="").write(subprocess.run("true",shell=True) and diff)
        # byte-exact diff
        if "demo_sh" in s: body=s["demo_sh"]
        else: body=CPP%(s.get("flags",""),s.get("srcs",'"$c"/ATN.cpp "$c"/CharClass.cpp "$c"/CompositeATN.cpp "$c"/Grammar.cpp "$c"/Util.cpp'))
        open(d+"/demo.sh","w").write(DEMO%body); os.chmod(d+"/demo.sh",0o755)
        for k,n in(("demo","demo.cpp"),("demo_py","demo.py")):
            if k in s: open(os.path.join(d,n),"w").write(s[k])
        for n,x in s.get("files",{}).items():
            os.makedirs(os.path.dirname(os.path.join(d,n)),exist_ok=True); open(os.path.join(d,n),"w").write(x)
        json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
        # confirm
        r0=sh("cd /repo && bash %s/demo.sh"%d)
        sh("git -C /repo apply --whitespace=nowarn %s/patch.diff"%d)
        if sh("git -C /repo status --porcelain").stdout.strip()=="": print(s["id"],"patch does not apply"); continue
        try:
            b=sh("bash /opt/vp/build.sh"); sh("bash /opt/vp/test.sh /tmp/seed_o.json"); m=stable() if b.returncode==0 else ["build"]
            r1=sh("cd /repo && bash %s/demo.sh"%d)
        finally: sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
        print(s["id"],"OK" if r0.returncode==0 and r1.returncode not in(0,3) and not m and b.returncode==0 else "BAD","clean",r0.returncode,"patched",r1.returncode,"build",b.returncode,"missing",m, (r0.stdout[-300:] if r0.returncode else ""), r1.stdout[-120:].strip() if r1.returncode!=3 else r1.stdout[-600:])
main(sys.argv[1])
