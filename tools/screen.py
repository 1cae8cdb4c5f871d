#!/usr/bin/env python3
"""Screens candidate bugs: applies each to a scratch copy of /repo, requires that it builds and keeps
the stable tests, and runs its property's quick check on it.
usage: screen.py BATCH.py [id...]    BATCH.py defines bugs = [(id, property, file, old, new), ...]
(or (id, property, [(file, old, new), ...])). Results are appended to /tmp/scr/results.txt."""
import sys,os,subprocess,runpy,json,re,time,shutil,queue
from concurrent.futures import ThreadPoolExecutor
J=int(os.environ.get("J","2")); W="/tmp/scr"; os.makedirs(W,exist_ok=True)
bugs=runpy.run_path(sys.argv[1])["bugs"]; want=set(sys.argv[2:])
def sh(c,cwd=None,t=1200,env=None):
    e=dict(os.environ); e.update(env or {})
    try: r=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,env=e); return r.returncode,r.stdout
    except subprocess.TimeoutExpired: return 99,"timeout"
def tests(cwd):
    rc,o=sh(". /opt/vp/env.sh; go test -json ./... 2>&1",cwd,300); ok=set()
    for l in o.splitlines():
        try: d=json.loads(l)
        except Exception: continue
        if d.get("Action")=="pass" and d.get("Test"): ok.add(d["Package"]+"/"+d["Test"])
    return ok
slots=queue.Queue()
for i in range(J):
    shutil.rmtree(f"{W}/r{i}",ignore_errors=True); shutil.rmtree(f"{W}/v{i}",ignore_errors=True)
    subprocess.run(["cp","-a","/repo",f"{W}/r{i}"]); os.makedirs(f"{W}/v{i}")
    sh(f"cp -a /verif/bin /verif/engine /verif/harness /verif/tools /verif/*.txt /verif/*.sh /verif/*.jsonl /verif/MANIFEST.json {W}/v{i}/"); slots.put(i)
stable=tests(f"{W}/r0")
def one(b):
    i,p=b[0],b[1]; ed=b[2] if isinstance(b[2],list) else [b[2:]]
    s=slots.get(); wt=f"{W}/r{s}"
    try:
        sh("git checkout -q -- .",wt)
        for f,old,new in ed:
            t=open(f"{wt}/{f}").read()
            if t.count(old)!=1: return f"BADEDIT({t.count(old)}) {f}: {old[:60]!r}"
            open(f"{wt}/{f}","w").write(t.replace(old,new))
        rc,o=sh(". /opt/vp/env.sh; go build ./...",wt)
        if rc: return "NOBUILD "+o[-300:]
        ok=tests(wt)
        if not stable<=ok: return "TESTS "+str(sorted(stable-ok)[:2])
        t0=time.time()
        rc,o=sh(f"{W}/v{s}/check.sh {p} quick",None,900,{"VERIF_REPO":wt})
        v=re.findall(r"^VIOLATION.*",o,re.M)
        open(f"{W}/{i}.out","w").write(o)
        return f"{'CAUGHT' if rc==1 and v else 'MISSED rc=%d'%rc} {time.time()-t0:.0f}s"
    finally:
        sh("git checkout -q -- .",wt); slots.put(s)
def run(b):
    try: r=one(b)
    except Exception as e: r="ERROR "+repr(e)
    l=f"{b[0]} {b[1]} {r}"
    print(l,flush=True); open(W+"/results.txt","a").write(l+"\n")
with ThreadPoolExecutor(J) as ex: list(ex.map(run,[b for b in bugs if not want or b[0] in want]))
for i in range(J): shutil.rmtree(f"{W}/r{i}",ignore_errors=True); shutil.rmtree(f"{W}/v{i}",ignore_errors=True)
