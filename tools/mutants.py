#!/usr/bin/env python3
"""Measures which small changes of /repo the harnesses notice.
usage: mutants.py N SEED [path-regex]   results are appended to /tmp/mut/results.jsonl
Needs /tmp/mut/funcs.json (VFUNCS=/tmp/mut/funcs.json bin/eng try '.*')."""
import sys,os,json,random,re,subprocess,shutil,time
from concurrent.futures import ThreadPoolExecutor
N,SEED=int(sys.argv[1]),int(sys.argv[2]); RX=re.compile(sys.argv[3] if len(sys.argv)>3 else ".")
J=int(os.environ.get("J","3"))
W="/tmp/mut"; os.makedirs(W,exist_ok=True)
def sh(c,cwd=None,t=900):
    try: r=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t); return r.returncode,r.stdout
    except subprocess.TimeoutExpired: return 99,"timeout"
files=[f for f in sh("git ls-files '*.go'","/repo")[1].split() if not f.endswith("_test.go") and (f.startswith("internal/") or "/" not in f) and RX.search(f)]
rc,o=sh("cd /verif/tools/mutate && go run . "+" ".join("/repo/"+f for f in files))
ms=[json.loads(l) for l in o.splitlines() if l.startswith("{")]
funcs=json.load(open(W+"/funcs.json"))
by={}
for h,d in funcs.items():
    for f in d["funcs"]:
        by.setdefault(f,[]).append((d["wall"],h))
def key(m):
    pkg="github.com/way-platform/tachograph-go/"+os.path.dirname(m["File"][6:]); pkg=pkg.rstrip("/")
    return pkg,m["Func"]
def harnesses(m):
    pkg,fn=key(m)
    hs=[]
    for f,l in by.items():
        if fn and (f==pkg+"."+fn or (f.startswith("("+pkg+".") or f.startswith("(*"+pkg+".")) and f.endswith(")."+fn) or f.startswith(pkg+"."+fn+"$")): hs+=l
    return sorted(set(hs))
random.seed(SEED); random.shuffle(ms)
done=set()
rf=W+"/results.jsonl"
if os.path.exists(rf):
    for l in open(rf):
        d=json.loads(l); done.add((d["File"],d["Off"],d["New"]))
base={}
def tests(cwd,pkg):
    rc,o=sh(f". /opt/vp/env.sh; go build ./... && go test -json ./... 2>&1",cwd,300)
    if rc not in (0,1): return None
    ok=set()
    for l in o.splitlines():
        try: d=json.loads(l)
        except Exception: continue
        if d.get("Action")=="pass" and d.get("Test"): ok.add(d["Package"]+"/"+d["Test"])
    return ok
stable=None
def work(job):
    slot,m=job
    wt=f"{W}/wt{slot}"
    rel=m["File"][6:]
    src=open("/repo/"+rel,"rb").read()
    new=src[:m["Off"]]+m["New"].encode()+src[m["End"]:]
    open(f"{wt}/{rel}","wb").write(new)
    try:
        rc,o=sh(". /opt/vp/env.sh; go build ./...",wt,300)
        if rc: m["res"]="nocompile"; return m
        ok=tests(wt,None)
        if ok is None or not stable<=ok: m["res"]="tests"; return m
        hs=harnesses(m)
        m["n"]=len(hs)
        if not hs: m["res"]="unexecuted"; return m
        t0=time.time()
        tot=0; batch=[]; m["res"]="missed"
        pick=[]
        for w,h in hs:
            if tot+w>260 and len(pick)>=3 or len(pick)>=60: break
            pick.append(h); tot+=w
        for i in range(0,len(pick),6):
            rc,o=sh(f"/verif/bin/eng try -verif /verif -repo {wt} -budget 150 '^({'|'.join(pick[i:i+6])})$'",None,900)
            c=re.findall(r"CONFIRMED (\S+) (.*)",o)
            if c: m["res"]="caught"; m["by"]=c[0]; break
            if "replay" in o or "timeout=true" in o or "crash=" in o: m.setdefault("odd",[]).append(o[-1500:])
        m["t"]=round(time.time()-t0,1)
        return m
    finally:
        open(f"{wt}/{rel}","wb").write(src)
import queue
slots=queue.Queue()
for i in range(J):
    shutil.rmtree(f"{W}/wt{i}",ignore_errors=True); subprocess.run(["cp","-a","/repo",f"{W}/wt{i}"]); slots.put(i)
stable=tests(f"{W}/wt0",None)
def run(m):
    s=slots.get()
    try: return work((s,m))
    except Exception as e: m["res"]="error "+repr(e); return m
    finally: slots.put(s)
todo=[m for m in ms if (m["File"],m["Off"],m["New"]) not in done][:N]
with ThreadPoolExecutor(J) as ex:
    for m in ex.map(run,todo):
        with open(rf,"a") as f: f.write(json.dumps(m)+"\n")
        print(m["res"],m["File"][6:],m["Line"],m["Func"],m["Desc"][:80],m.get("by",""),m.get("t",""),flush=True)
for i in range(J): shutil.rmtree(f"{W}/wt{i}",ignore_errors=True)
