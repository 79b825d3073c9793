#!/usr/bin/env python3
"""Mutation sweep: small changes to /repo's sources in scratch copies, to find behaviour the checks do not judge.
mutate.py list | mutate.py run WORKERS OUT [file substring] [per-line maximum]"""
import sys, os, re, subprocess, hashlib, json, shutil, threading, queue, time
O="rct_optimizations/src/rct_optimizations/"; OI="rct_optimizations/include/rct_optimizations/"
M="rct_image_tools/src/rct_image_tools/"; MI="rct_image_tools/include/rct_image_tools/"
R="rct_ros_tools/src/"; RI="rct_ros_tools/include/rct_ros_tools/"
FILES={O+"extrinsic_hand_eye.cpp":"C01 C05 C06", OI+"extrinsic_hand_eye.h":"C01",
 O+"extrinsic_multi_static_camera.cpp":"C02 C05 C06", O+"extrinsic_multi_static_camera_only.cpp":"C02 C05 C06", O+"extrinsic_multi_static_camera_wrist_only.cpp":"C02 C05 C06",
 O+"pnp.cpp":"C03 C05 C06", O+"multi_camera_pnp.cpp":"C03 C05 C06", O+"camera_intrinsic.cpp":"C04 C05 C06",
 O+"covariance_analysis.cpp":"C06 C16", OI+"covariance_types.h":"C06 C16", O+"eigen_conversions.cpp":"C07 C03", OI+"ceres_math_utilities.h":"C07 C03 C01",
 O+"dh_chain.cpp":"C08 C16 C22", OI+"dh_chain.h":"C08 C16", OI+"types.h":"C09 C07", OI+"serialization/types.h":"C10", OI+"serialization/eigen.h":"C10", OI+"serialization/problems.h":"C10",
 O+"validation/homography_validation.cpp":"C11", OI+"validation/homography_validation.h":"C11", O+"validation/noise_qualification.cpp":"C12",
 O+"validation/camera_intrinsic_calibration_validation.cpp":"C13", O+"validation/projection.cpp":"C14", O+"circle_fit.cpp":"C15 C06 C05", OI+"circle_fit.h":"C15 C19",
 O+"dh_chain_kinematic_calibration.cpp":"C16", OI+"dh_chain_kinematic_calibration.h":"C16 C09", OI+"maximum_likelihood.h":"C16", OI+"local_parameterization.h":"C16",
 M+"circle_detector.cpp":"C19 C18", MI+"circle_detector.h":"C19 C17", M+"modified_circle_grid_finder.cpp":"C18", M+"modified_circle_grid_target.cpp":"C17", M+"aruco_finder.cpp":"C20",
 M+"aruco_grid_target.cpp":"C17 C20", M+"charuco_finder.cpp":"C20", M+"charuco_grid_target.cpp":"C17 C20", MI+"aruco_grid_target.h":"C17", MI+"charuco_grid_target.h":"C17", MI+"image_utils.h":"C21",
 "rct_examples/src/examples/kinematic_calibration.cpp":"C27", R+"command_line_cal.cpp":"C25", "rct_common/include/rct_common/print_utils.h":"C24",
 R+"data_set.cpp":"C23", R+"parameter_loaders.cpp":"C23 C17", R+"loader_utils.cpp":"C23", R+"target_loader_plugins.cpp":"C17"}
OPS=[(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" == "," != "),(r" != "," == "),(r" && "," || "),(r" \|\| "," && "),
 (r" \+ "," - "),(r" - "," + "),(r" \* "," / "),(r" / "," * "),(r" \+= "," -= "),(r" -= "," += "),(r"\btrue\b","false"),(r"\bfalse\b","true"),
 (r"(?<![\w.])0(?![\w.])","1"),(r"(?<![\w.])1(?![\w.])","2"),(r"(?<![\w.])2(?![\w.])","1"),(r"(?<![\w.])([3-9])(?![\w.])","2"),
 (r"\.x\(\)",".y()"),(r"\.y\(\)",".x()"),(r"\.z\(\)",".y()"),(r"\.first\b",".second"),(r"\.second\b",".first"),(r"\.inverse\(\)",""),
 (r"\brows\b","cols"),(r"\bcols\b","rows"),(r"\bbegin\(\)","end()"),(r"\.front\(\)",".back()"),(r"\.back\(\)",".front()"),(r"\bmin\(","max("),(r"\bmax\(","min("),
 (r"\.normalized\(\)",""),(r"(?<=[=(, ])-(?=[a-z(])",""),(r"\bif \((.*)\)$",r"if (!(\1))"),(r"\bif \((.*)\)$",r"if (false && (\1))"),(r"\bcontinue;","break;"),(r"\bbreak;",";"),(r"return true;","return false;")]
def mutants(f, src):
    out=[]; incomment=False
    for i,l in enumerate(src):
        st=l.strip()
        if st.startswith("/*"): incomment=True
        if incomment:
            if "*/" in st: incomment=False
            continue
        if not st or st.startswith(("//","#","*","using","template","}","{","ROS_","namespace","class","struct","public:","private:")): continue
        code=l.split("//")[0].rstrip("\n")
        if "typename" in code: continue
        q=re.sub(r'"[^"]*"', lambda m: '"'+"\1"*(len(m.group(0))-2)+'"', code)   # leave strings alone
        for pat,rep in OPS:
            for m in re.finditer(pat,q):
                new=code[:m.start()]+m.expand(rep).replace("\1","")+code[m.end():]
                if "\1" in m.group(0):
                    new=code[:m.start()]+re.sub(pat,rep,code[m.start():m.end()])+code[m.end():]
                if new!=code: out.append((i,new+"\n"))
        if st.endswith(";") and not st.startswith(("return","const ","double ","int ","bool ","std::","auto ","Eigen::","cv::","break","continue","typedef","static","for","if","virtual","explicit","ceres::Solver::")) and ("=" in st or "(" in st) and st.count("(")==st.count(")") and not re.match(r"^\w[\w:<>, ]* \w+(\(.*\))?( const)?;$",st):
            out.append((i,re.match(r"\s*",code).group(0)+";\n"))
        if st.startswith("throw "): pass
    return out
def pick(f,src,k):
    by={}
    for i,n in mutants(f,src): by.setdefault(i,[]).append(n)
    r=[]
    for i in sorted(by):
        v=sorted(set(by[i]), key=lambda n: hashlib.md5((f+str(i)+n).encode()).hexdigest())
        r+=[(i,n) for n in v[:k]]
    return r
def sh(c,cwd=None,t=600,env=None):
    try:
        p=subprocess.Popen(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,start_new_session=True)
        o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,""
def main():
    sub=sys.argv[4] if len(sys.argv)>4 else ""; k=int(sys.argv[5]) if len(sys.argv)>5 else 1
    jobs=[]
    for f in FILES:
        if sub and sub not in f: continue
        src=open("/repo/"+f).readlines()
        jobs+=[(f,i,n) for i,n in pick(f,src,k)]
    if sys.argv[1]=="list":
        print(len(jobs)); return
    W=int(sys.argv[2]); out=sys.argv[3]
    done=set()
    if os.path.exists(out):
        for l in open(out):
            d=json.loads(l); done.add((d["file"],d["line"],d["new"]))
    q=queue.Queue()
    for j in jobs:
        if (j[0],j[1]+1,j[2].strip()) not in done: q.put(j)
    lock=threading.Lock()
    def work(w):
        base=os.environ.get("MUT_DIR","/tmp/mut")+"/w%d"%w; rp=base+"/repo"; vp=base+"/verif"
        os.makedirs(base,exist_ok=True)
        if os.path.exists(rp): shutil.rmtree(rp)
        shutil.copytree("/repo",rp,ignore=shutil.ignore_patterns("_build",".git"))
        sh("rsync -a --exclude build --exclude .git --exclude seeded --exclude replays /verif/ %s/ || (mkdir -p %s && cd /verif && tar cf - --exclude=./build --exclude=./.git --exclude=./seeded --exclude=./replays . | tar xf - -C %s)"%(vp,vp,vp))
        env=dict(os.environ,CC="gcc",CXX="g++",VF_STOP="1",VF_JOBS="4")
        sh("cmake -S %s -B %s/build -G Ninja -DREPO=%s && ninja -j4 -C %s/build %s"%(vp,vp,rp,vp," ".join(sorted({c for j in jobs for c in FILES[j[0]].split()}))),t=3000,env=env)
        while True:
            try: f,i,n=q.get_nowait()
            except queue.Empty: break
            orig=open(rp+"/"+f).read(); L=orig.splitlines(True); old=L[i]; L[i]=n
            open(rp+"/"+f,"w").write("".join(L)); t0=time.time(); res="SURVIVED"
            for c in FILES[f].split():
                rc,o=sh("./run.sh "+c,cwd=vp,env=env,t=400)
                if rc==2 and "build failed" in o: res="nobuild"; break
                if "VIOLATION property" in o:
                    m=re.search(r"case (.*)",o); res="caught "+c+" "+(m.group(1)[:120] if m else ""); break
                if rc!=0: res="ODD %s rc=%d %s"%(c,rc,o[-200:]); break
            open(rp+"/"+f,"w").write(orig)
            with lock:
                with open(out,"a") as h: h.write(json.dumps(dict(file=f,line=i+1,old=old.strip(),new=n.strip(),res=res,s=round(time.time()-t0)))+"\n")
    ts=[threading.Thread(target=work,args=(w,)) for w in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
