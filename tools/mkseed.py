#!/usr/bin/env python3
"""Builds and confirms planted bugs: mkseed.py SPEC.py [id...]

SPEC.py defines seeds = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=Go test body,
imports=[...], pkg="." , race=False)]. Each is tried in a scratch copy of /repo and written to
/verif/seeded/<id> if it builds, passes the stable tests, changes original lines, and its demonstration
passes without and fails with the change."""
import json, os, subprocess, sys, shutil
spec={}; exec(open(sys.argv[1]).read(),spec); only=sys.argv[2:]
R="/tmp/seedrepo"
def sh(c,cwd=R,t=300):
    return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
if os.path.exists(R): shutil.rmtree(R)
subprocess.run(["cp","-a","/repo",R],check=True)
stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
base=sh("git log --format=%h | tail -1").stdout.strip()
def tests():
    o=sh("go test -json ./...").stdout; ok=set()
    for l in o.splitlines():
        try: d=json.loads(l)
        except Exception: continue
        if d.get("Action")=="pass" and d.get("Test"): ok.add(d["Package"]+"/"+d["Test"])
    return stable-ok
for s in spec["seeds"]:
    if only and s["id"] not in only: continue
    sh("git checkout -q -- . && git clean -qfd")
    d="/verif/seeded/"+s["id"]
    bad=None; orig=False
    for f,old,new in s["edits"]:
        p=R+"/"+f; t=open(p).read()
        if t.count(old)!=1: bad="%s: %d matches for %r"%(f,t.count(old),old[:60]); break
        a=t[:t.index(old)].count("\n")+1
        open(p,"w").write(t.replace(old,new))
    if bad: print(s["id"],"BAD",bad); continue
    sh("gofmt -w "+" ".join({f for f,_,_ in s["edits"]}))
    diff=sh("git diff").stdout
    # which removed lines are from the base commit?
    for f in {f for f,_,_ in s["edits"]}:
        bl=sh("git blame -s HEAD -- "+f).stdout.splitlines()
        n=0
        for l in sh("git diff -U0 -- "+f).stdout.splitlines():
            if l.startswith("@@"):
                a=l.split()[1][1:].split(","); st=int(a[0]); c=int(a[1]) if len(a)>1 else 1
                for k in range(st,st+c):
                    if base in bl[k-1].split()[0]: orig=True
    if not orig: d="/tmp/seeds/"+s["id"]  # does not count, but is as good a test
    b=sh("go build ./... && go vet ./... 2>&1 | grep -v '^#' | head -3")
    if b.returncode or tests(): print(s["id"],"BAD build/tests",b.stdout[-300:],sorted(tests())[:4]); continue
    os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(diff)
    pkg=s.get("pkg","."); name={".":"restruct_test","./expr":"expr_test","./formats/png":"png_test"}[pkg]
    imps="".join('\t%s\n'%(i if '"' in i else '"%s"'%i) for i in sorted(["testing"]+s.get("imports",[])))
    open(d+"/demo_test.go","w").write("package %s\n\nimport (\n%s)\n\n%s"%(name,imps,s["demo"].lstrip("\n")))
    subprocess.run(["gofmt","-w",d+"/demo_test.go"])
    sub="" if pkg=="." else pkg[1:]
    open(d+"/demo.sh","w").write('''#!/bin/bash
# Runs the test beside this script inside the package, through an overlay.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp)
printf '{"Replace":{"%%s%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t"
timeout 200 go test -count=1 -vet=off %s-timeout 120s -overlay "$t" -run '^TestDemo$' %s
r=$?
rm -f "$t"
exit $r
'''%(sub,"-race " if s.get("race") else "",pkg))
    os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
    r1=sh("bash %s/demo.sh"%d)
    sh("git checkout -q -- .")
    r0=sh("bash %s/demo.sh"%d)
    ok=r0.returncode==0 and r1.returncode!=0 and "build failed" not in r1.stdout
    print(s["id"],"ok" + ("" if orig else " (in /tmp/seeds)") if ok else "BAD demo %d/%d"%(r0.returncode,r1.returncode))
    if not ok: print(r0.stdout[-1500:],r1.stdout[-1500:]); shutil.rmtree(d)
shutil.rmtree(R)
