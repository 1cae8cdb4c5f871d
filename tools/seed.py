#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and confirms each one
in a scratch copy: it compiles, the stable tests pass, the demo passes without and fails with it.
Usage: seed.py [id...]"""
import sys, os, subprocess, json, shutil, glob, runpy
OUT="/verif/seeded"; WT="/tmp/seedwt"
DEMO='''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/@PKG@/zz_seeded_demo_test.go": "$here/demo.go.txt"}}
EOF
go test -overlay "$tmp/overlay.json" -count=1 -run '^TestSeededDemo$' ./@PKG@
'''
def sh(c,cwd=WT,env=None):
    e=dict(os.environ); e.update(env or {})
    return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=e)
def test(cwd):
    r=sh(". /opt/vp/env.sh; go build ./... && go vet ./internal/... >/dev/null 2>&1; go test -json ./... 2>/dev/null",cwd)
    ok=set()
    for l in r.stdout.splitlines():
        try: d=json.loads(l)
        except Exception: continue
        if d.get("Action")=="pass" and d.get("Test"): ok.add((d["Package"],d["Test"]))
    b=sh(". /opt/vp/env.sh; go build ./...",cwd)
    return b.returncode,b.stdout,ok
def main():
    seeds={}
    for f in sorted(glob.glob("/verif/tools/seeds/*.py")):
        for s in runpy.run_path(f)["seeds"]:
            assert s["id"] not in seeds, s["id"]
            seeds[s["id"]]=s
    want=sys.argv[1:] or list(seeds)
    shutil.rmtree(WT,ignore_errors=True)
    subprocess.run(["cp","-a","/repo",WT],check=True)
    sh("git checkout -q -- . ; git clean -fdq")
    rc,o,base=test(WT)
    assert rc==0,o
    bad=[]
    for i in want:
        s=seeds[i]; d=f"{OUT}/{i}"
        sh("git checkout -q -- .")
        os.makedirs(d,exist_ok=True)
        open(d+"/demo.sh","w").write(DEMO.replace("@PKG@",s["pkg"])); os.chmod(d+"/demo.sh",0o755)
        open(d+"/demo.go.txt","w").write(s["demo"])
        json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
        c=sh(f"bash {d}/demo.sh")
        if c.returncode!=0:
            print(i,"DEMO FAILS ON CLEAN TREE\n",c.stdout[-1500:]); bad.append(i); continue
        for f,old,new in s["edits"]:
            t=open(f"{WT}/{f}").read()
            if t.count(old)!=1: print(i,"edit matches",t.count(old),"times:",old); bad.append(i); break
            open(f"{WT}/{f}","w").write(t.replace(old,new))
        else:
            p=sh("git diff").stdout
            open(d+"/patch.diff","w").write(p)
            rc,o,ok=test(WT)
            if rc: print(i,"DOES NOT BUILD\n",o[-1500:]); bad.append(i); continue
            if base-ok: print(i,"TESTS CATCH IT",sorted(base-ok)[:4]); bad.append(i); continue
            c=sh(f"bash {d}/demo.sh")
            if c.returncode==0: print(i,"DEMO DOES NOT SHOW IT"); bad.append(i); continue
            if "build failed" in c.stdout: print(i,"DEMO BUILD",c.stdout[-800:]); bad.append(i); continue
            print(i,"ok (%s)"%s["property"])
    shutil.rmtree(WT,ignore_errors=True)
    for i in bad: shutil.rmtree(f"{OUT}/{i}",ignore_errors=True)
    if bad: print("REJECTED:",bad)
main()
