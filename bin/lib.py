"""Building, running and validating: shared machinery of all the checks."""
import json, os, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VERIF_REPO","/repo")
INC=os.path.join(REPO,"include")
HAR=os.path.join(ROOT,"harness")
SPEC=os.path.join(ROOT,"spec")
JAR="/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU=max(2,min(8,os.cpu_count() or 2))

class Broken(Exception):
    """the machinery itself failed: neither a pass nor a violation"""

class Violation(Exception):
    def __init__(self,what,files=None,text=""):
        Exception.__init__(self,what); self.what=what; self.files=files or []; self.text=text

def sh(cmd,timeout=600,env=None,cwd=None):
    e=dict(os.environ)
    if env: e.update(env)
    try:
        p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=timeout,env=e,cwd=cwd)
        return p.returncode,p.stdout.decode("utf8","replace"),p.stderr.decode("utf8","replace")
    except subprocess.TimeoutExpired as x:
        return 124,(x.stdout or b"").decode("utf8","replace"),(x.stderr or b"").decode("utf8","replace")+"\ntimeout"

class Work:
    """scratch directory of a check run"""
    def __init__(self,pid,tier):
        self.pid=pid; self.tier=tier
        self.dir=os.path.join(ROOT,"build",f"{pid}-{os.getpid()}")
        os.makedirs(self.dir,exist_ok=True)
        self.n=0
    def path(self,name): return os.path.join(self.dir,name)
    def fresh(self,suffix=""):
        self.n+=1
        return self.path(f"f{self.n:04d}{suffix}")
    def close(self): shutil.rmtree(self.dir,ignore_errors=True)

# ------------------------------------------------------------------ building

CXX="clang++"
CFLAGS=["-std=c++17","-O0","-w","-fsanitize=address","-fno-omit-frame-pointer","-ftemplate-depth=2000"]

class Target:
    """an executable made of one source compiled in several parts"""
    def __init__(self,name,src,defs,parts=(None,),flags=(),std=None,base=None):
        self.name=name; self.src=src; self.defs=dict(defs); self.parts=parts
        self.flags=list(flags); self.std=std
        self.base=CFLAGS if base is None else base
    def exe(self,w): return w.path(self.name)

def driver_target(kind,alf=0,lean=0,fill=0,slots=3):
    name=f"drv{kind}_{alf}_{lean}_{fill}"
    parts=(None,) if lean else (0,1,2,3,4,5)
    return Target(name,"driver.cpp",dict(KIND=kind,ALF=alf,LEAN=lean,NFILL=fill,NSLOTS=slots,VT_MAXN=8+(kind>=2)),parts)

def build(w,targets):
    """compiles the targets; a harness that no longer compiles against the
    library means its API contract is broken"""
    jobs=[]
    for t in targets:
        for p in t.parts:
            o=w.path(f"{t.name}.{p}.o")
            cmd=[CXX]+t.base+t.flags
            if t.std: cmd=[x for x in cmd if not x.startswith("-std=")]+[f"-std={t.std}"]
            cmd+=[f"-D{k}={v}" for k,v in t.defs.items()]
            if p is not None: cmd.append(f"-DPART={p}")
            cmd+=["-I",INC,"-I",HAR,"-c",os.path.join(HAR,t.src),"-o",o]
            jobs.append((t,p,o,cmd))
    # big units first
    jobs.sort(key=lambda j:0 if j[1] in (None,1,2,3,4) else 1)
    def run(j):
        r=sh(j[3],timeout=800)
        if r[0]!=0 and ("Killed" in r[2] or "unable to execute" in r[2] or "out of memory" in r[2] or r[0]<0):
            r=sh(j[3],timeout=800)
        return r
    with ThreadPoolExecutor(NCPU) as ex: res=list(ex.map(run,jobs))
    for j,r in zip(jobs,res):
        if r[0]!=0:
            errs="\n".join(l for l in r[2].splitlines() if "error" in l)[:4000]
            if r[0]==124: raise Broken("compilation timed out: "+j[0].name)
            if not errs: raise Broken("compiler failed: "+r[2][-2000:])
            log=w.fresh(".compile.txt")
            open(log,"w").write(" ".join(j[3])+"\n"+r[2][:200000])
            raise Violation(f"{j[0].src} no longer compiles against the library",[log],errs)
    def link(t):
        cmd=[CXX]+[f for f in t.base+t.flags if f.startswith("-fsan") or f=="-pthread"]+[w.path(f"{t.name}.{p}.o") for p in t.parts]+["-o",t.exe(w)]
        r=sh(cmd,timeout=300)
        if r[0]!=0: raise Broken("link failed: "+r[2][-2000:])
        for p in t.parts: os.remove(w.path(f"{t.name}.{p}.o"))
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(link,targets))

ENV={"TSAN_OPTIONS":"halt_on_error=1:exitcode=66",
     "ASAN_OPTIONS":"detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0",
     "UBSAN_OPTIONS":"halt_on_error=1"}

# ------------------------------------------------------------------- scripts

def episodes(lines):
    """splits a script into its episodes (list of lists of lines)"""
    out=[]
    for l in lines:
        if l.startswith("ep"): out.append([l])
        elif out: out[-1].append(l)
    return out

def run_driver(w,target,lines,timeout=300,micro=False,watch=20):
    """executes a script; returns the log path. A crash is a violation."""
    script=w.fresh(".script"); log=w.fresh(".ndjson"); cur=w.fresh(".cur")
    open(script,"w").write("\n".join(lines)+"\n")
    rc,o,e=sh([target.exe(w),script,log,cur,str(watch)],timeout=timeout,env=dict(ENV,VT_MICRO="1") if micro else ENV)
    if rc!=0 or "done" not in e:
        try: at=" ".join(open(cur).read().split())
        except OSError: at="?"
        what="hang" if rc in (124,142,-14) else "crash"
        raise Violation(f"{what} of the real code (exit {rc}) at: {at}",[script],
                        f"target {target.name} {target.defs}\nat {at}\n"+e[-6000:])
    return script,log

def shrink_crash(w,target,lines,timeout=60,limit=40):
    """finds a single episode that reproduces a crash, if there is one"""
    eps=episodes(lines)
    end=time.time()+limit
    def bad(ls):
        try: run_driver(w,target,ls,timeout,watch=5); return False
        except Violation: return True
    if len(eps)>1:
        lo=eps
        while len(lo)>1 and time.time()<end:
            h=len(lo)//2
            a=[x for ep in lo[:h] for x in ep]; b=[x for ep in lo[h:] for x in ep]
            if bad(a): lo=lo[:h]
            elif bad(b): lo=lo[h:]
            else: return [x for ep in lo for x in ep]
        return [x for ep in lo for x in ep]
    return lines

# ----------------------------------------------------------------------- TLC

def tlc(module,cfg,env=None,workers=1,heap="2g",extra=(),timeout=800,meta=None):
    meta=meta or f"/tmp/tlc-{os.getpid()}-{hashlib.md5(os.urandom(8)).hexdigest()[:8]}"
    cmd=["java","-XX:+UseParallelGC","-XX:ParallelGCThreads=2",f"-Xmx{heap}","-Xss64m",
         f"-Djava.io.tmpdir={meta}","-cp",JAR,"tlc2.TLC","-workers",str(workers),"-noGenerateSpecTE",
         "-metadir",meta,"-config",cfg]+list(extra)+[module]
    os.makedirs(meta,exist_ok=True)
    try: return sh(cmd,timeout=timeout,env=env,cwd=SPEC)
    finally: shutil.rmtree(meta,ignore_errors=True)

VIOL=re.compile(r'^<<"VIOL", (\d+), "([^"]*)", (\{.*\})>>')

def split_log(w,log,maxev,mark='{"op":"reset"'):
    """splits a log in chunks starting at resets, each with the header"""
    with open(log) as f: ls=f.readlines()
    hdr,ls=ls[0],ls[1:]
    chunks=[];c=[]
    for l in ls:
        if l.startswith(mark) and len(c)>=maxev: chunks.append(c+[l]);c=[]
        c.append(l)
    if c: chunks.append(c)
    out=[]
    for c in chunks:
        p=w.fresh(".ndjson"); open(p,"w").write(hdr+"".join(c)); out.append((p,len(c)))
    return out

def validate(prop,logs,module="PolyTrace",timeout=800):
    """logs: list of (path,nevents,meta). Returns violations and number of
    events validated."""
    viols=[];total=0;badh=None
    def run(x):
        p,n,meta=x
        return x,tlc(f"{module}.tla",f"{module}.cfg",env={"VPROP":prop,"VLOG":p},timeout=timeout)
    with ThreadPoolExecutor(NCPU) as ex: res=list(ex.map(run,logs))
    for (p,n,meta),(rc,o,e) in res:
        if "BADHANDLES" in o: badh="handle rule mismatch in "+p+"\n"+o[-1500:]
        m=re.search(r'<<"DONE", (\d+)>>',o)
        if rc!=0 or not m:
            k=re.findall(r"/\\\\? ?i = (\d+)|^i = (\d+)",o,re.M)
            if "The error occurred when TLC was evaluating" in o or "Attempted to" in o:
                # the recorded state is outside the domain of the specification
                at=max([int(a or b) for a,b in k] or [2])
                viols.append(dict(log=p,line=at,op="?",clauses='{"IllFormed"}',meta=meta,detail=o[-3000:]))
                continue
            raise Broken(f"TLC failed on {p}: rc={rc}\n"+o[-3000:]+e[-1000:])
        total+=int(m.group(1))-1
        for l in o.splitlines():
            v=VIOL.match(l)
            if v: viols.append(dict(log=p,line=int(v.group(1)),op=v.group(2),clauses=v.group(3),meta=meta))
    # the recorder disagrees with the specification on what to examine: no
    # answer, unless the code is found to misbehave anyway
    if badh and not viols: raise Broken(badh)
    return viols,total

def log_line(path,k):
    with open(path) as f:
        for i,l in enumerate(f,1):
            if i==k: return l
