#!/usr/bin/env python3
"""probe.py SPEC WORKERS OUT [id ...]: tries changes (without demonstration) in scratch copies and says which check notices them.
An edit's text starting with '#n:' stands for the n-th occurrence."""
import sys,os,re,runpy,shutil,subprocess,threading,queue,time,json
SRC=os.environ.get("PROBE_SRC","/repo")
spec,W,out=sys.argv[1],int(sys.argv[2]),sys.argv[3]; only=sys.argv[4:]
P=[p for p in runpy.run_path(spec)["P"] if not only or p[0] in only]
def edit(s,old,new,who):
    m=re.match(r"#(\d):",old)
    if m:
        old=old[3:]; n=int(m.group(1)); at=-1
        if s.count(old)<n: n=s.count(old)
        if n==0: raise SystemExit("%s: not found: %s"%(who,old))
        for _ in range(n): at=s.index(old,at+1)
        return s[:at]+new+s[at+len(old):]
    if s.count(old)!=1: raise SystemExit("%s: found %d times: %s"%(who,s.count(old),old))
    return s.replace(old,new)
for p in P:
    t={}
    for f,a,b in p[2]: t[f]=edit(t.get(f) or open(SRC+"/"+f,newline="").read(),a,b,p[0])
def sh(c,cwd=None,t=900,env=None):
    try:
        p=subprocess.Popen(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,start_new_session=True)
        o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,""
q=queue.Queue(); [q.put(p) for p in P]; lock=threading.Lock()
def work(w):
    base=os.environ.get("PROBE_DIR","/tmp/probe")+"/w%d"%w; rp=base+"/repo"; vp=base+"/verif"
    os.makedirs(vp,exist_ok=True); os.makedirs(rp,exist_ok=True)
    sh("cd %s && tar cf - --exclude=./_build --exclude=./.git . | tar xmf - -C %s"%(SRC,rp))
    sh("cd /verif && tar cf - --exclude=./build --exclude=./.git --exclude=./seeded --exclude=./replays . | tar xmf - -C %s"%vp)
    env=dict(os.environ,CC="gcc",CXX="g++",VF_STOP="1",VF_JOBS="4")
    sh("cmake -S %s -B %s/build -G Ninja -DREPO=%s"%(vp,vp,rp),env=env)
    while True:
        try: p=q.get_nowait()
        except queue.Empty: break
        orig={}; t0=time.time()
        for f,a,b in p[2]:
            s=open(rp+"/"+f,newline="").read(); orig.setdefault(f,s); open(rp+"/"+f,"w",newline="").write(edit(s,a,b,p[0]))
        r=[]
        for c in p[1].split():
            rc,o=sh("./run.sh "+c,cwd=vp,env=env)
            m=re.search(r"case (.*)",o)
            r.append("%s %s"%(c,"build failed\n"+o[-1500:] if rc==2 and "build failed" in o else "CAUGHT "+(m.group(1)[:110] if m else "") if "VIOLATION property" in o else "MISSED" if rc==0 else "ODD rc=%d %s"%(rc,o[-300:])))
        for f,s in orig.items(): open(rp+"/"+f,"w",newline="").write(s)
        with lock: open(out,"a").write("%-22s %4ds %s\n"%(p[0],time.time()-t0," | ".join(r)))
ts=[threading.Thread(target=work,args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
open(out,"a").write("done\n")
