#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

exit 0: the property held on everything explored
exit 1: "VIOLATION property=<id> replay=<path>"
exit 2: the machinery itself failed (no answer)
"""
import json, os, random, shutil, sys, time, traceback, collections
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lib import *
import gen, plans, model

def replay_dir(pid):
    base=os.path.join(ROOT,"replays"); os.makedirs(base,exist_ok=True)
    k=1
    while os.path.exists(os.path.join(base,f"{pid}-{k}")): k+=1
    d=os.path.join(base,f"{pid}-{k}"); os.makedirs(d); return d

class Result:
    def __init__(self):
        self.found=[]        # list of replay dirs
        self.cov=collections.Counter()
        self.samples=[]
        self.rule=""
        self.assumptions=[]

def report_violation(pid,what,target,lines,text,extra=()):
    d=replay_dir(pid)
    info=dict(property=pid,what=what)
    if target is not None:
        info["driver"]=dict(src=target.src,defs=target.defs,flags=target.flags)
    if lines is not None: open(os.path.join(d,"script"),"w").write("\n".join(lines)+"\n")
    for f in extra:
        if os.path.exists(f): shutil.copy(f,d)
    open(os.path.join(d,"report.txt"),"w").write(what+"\n\n"+text)
    json.dump(info,open(os.path.join(d,"info.json"),"w"),indent=1)
    return d

def summarize(log,res,seen):
    """abstract states and transitions met in a log"""
    n=0
    with open(log) as f:
        next(f)
        for l in f:
            e=json.loads(l)
            if e["op"]=="reset": res.cov["traces"]+=1; continue
            n+=1
            res.cov["op_"+e["op"]]+=1
            if e["fd"]: res.cov["faults_fired"]+=1
            if e["x"] and not e["fd"]: res.cov["documented_exceptions"]+=1
            st=tuple((s["on"],tuple((q["t"],tuple(q["e"])) for q in s["S"])) for s in e["st"])
            seen.add(hash(st))
    return n

def container_check(pid,tier,seed,res,w):
    rs=plans.runs(pid,tier)
    targets={}
    for kw,reqs in rs:
        t=driver_target(**kw); targets[t.name]=t
    t0=time.time()
    # the specification's own state space is explored while the code compiles
    q=tier=="quick"
    cfg=model.MODELS[pid] if q else model.DEEP.get(pid,model.MODELS[pid])
    with ThreadPoolExecutor(1) as ex:
        fut=ex.submit(model.run,w,cfg,3 if q else 8,800 if q else 7200)
        build(w,list(targets.values()))
        res.cov["build_s"]=round(time.time()-t0,1)
        ns,nt,edges=fut.result()
    if pid in("C12","C13"):
        a,b=model.segment(w,tier); ns+=a; nt+=b; res.cov["segment_model_states"]=a
    res.cov["model_s"]=round(time.time()-t0,1)
    res.cov["model_states"]=ns; res.cov["model_transitions"]=nt
    g=model.Graph(cfg,edges)
    bounded=any(kw.get("alf",0)&32 for kw,_ in rs)
    if bounded:
        a,b,xe=model.run(w,model.MAXED); res.cov["model_states"]+=a; res.cov["model_transitions"]+=b
        gx=model.Graph(model.MAXED,xe)
    jobs=[]
    for kw,reqs in rs:
        t=targets[driver_target(**kw).name]
        for i,req in enumerate(reqs):
            r=random.Random(f"{pid}/{tier}/{seed}/{t.name}/{i}")
            jobs.append((t,plans.script(r,pid,req)))
        r=random.Random(f"{pid}/{tier}/{seed}/{t.name}/model")
        mx=kw.get("alf",0)&32
        for n,mask in plans.model_plan(pid,tier,len(rs)):
            if mx:
                if n and not mask: n=n//2
                jobs+=[(t,c) for c in chunks(model.tours(r,gx,n),12000)]
                res.cov["model_edges_executed"]+=min(n or len(xe),len(xe))
                continue
            ls=model.faults(r,g,n,mask) if mask else model.tours(r,g,n)
            res.cov["model_edges_executed"]+=min(n or len(edges),len(edges))
            jobs+=[(t,c) for c in chunks(ls,12000)]
    run_jobs(pid,jobs,res,w)
    # elementary steps (Life)
    jobs=[]
    for kw,reqs in rs:
        t=targets[driver_target(**kw).name]
        for i,req in enumerate(plans.micro(pid,tier)):
            r=random.Random(f"{pid}/{tier}/{seed}/{t.name}/micro{i}")
            jobs.append((t,plans.script(r,pid,req)))
    if jobs: run_jobs(pid,jobs,res,w,module="LifeTrace",micro=True)

def chunks(lines,n):
    out=[[]]
    for ep in episodes(lines):
        if len(out[-1])>n: out.append([])
        out[-1]+=ep
    return [c for c in out if c]

def mpart(l):
    a=l.find(',"m":['); b=l.find('],"st":[')
    return l[a:b] if a>=0 else ""

def run_jobs(pid,jobs,res,w,prop=None,module="PolyTrace",micro=False):
    """executes scripts on the real code and validates the logs with TLC"""
    bad=[]
    def one(j):
        t,lines=j
        if len(bad)>=6: return j,None,None           # enough is known
        try: return j,run_driver(w,t,lines,micro=micro),None
        except Violation as v: bad.append(1); return j,None,v
    with ThreadPoolExecutor(NCPU) as ex: outs=list(ex.map(one,jobs))
    logs=[];seen=set();shown=0
    for (t,lines),ok,v in outs:
        if v is not None:
            shown+=1
            if shown>4: continue
            small=shrink_crash(w,t,lines) if len(res.found)<2 else lines
            res.found.append(report_violation(pid,v.what,t,small,v.text))
            continue
        if ok is None: continue
        script,log=ok
        res.cov["events"]+=summarize(log,res,seen)
        if len(res.samples)<3:
            eps=episodes(lines)
            if eps: res.samples.append({"driver":t.defs,"script":eps[len(eps)//2][:14]})
        if micro: res.cov["micro_steps"]+=sum(l.count("],[")+1 for l in map(mpart,open(log)) if l)
        for p,n in split_log(w,log,1500 if micro else 3000): logs.append((p,n,(t,lines)))
        os.remove(log)
    viols,total=validate(prop or pid,logs,module)
    res.cov["events_validated"]+=total
    res.cov["distinct_states"]+=len(seen)
    done=set()
    for v in viols:
        key=(v["op"],v["clauses"])
        if key in done or len(res.found)>=5: continue
        done.add(key)
        t,lines=v["meta"]
        l=log_line(v["log"],v["line"]); e=json.loads(l)
        ep=e.get("ep",0)
        eps=episodes(lines)
        small=eps[ep-1] if 0<ep<=len(eps) else lines
        pre=log_line(v["log"],v["line"]-1)
        res.found.append(report_violation(pid,f"operation {v['op']} violates {v['clauses']}",t,small,
            f"driver {t.defs}\nevent:\n{l}\nprevious state:\n{pre}"))

# -------------------------------------------------------------- algorithms

def algo_target(kind,tsl,cst,arena,std=None):
    return Target(f"alg{kind}{tsl}{cst}{arena}{std or ''}","algo.cpp",dict(KIND=kind,TSL=tsl,CST=cst,ARENA=arena),
                  flags=["-O1"],std=std)

# (kind, restitution list, const iterators, memory layout)
ALGO_QUICK=[(0,0,0,2),(0,1,1,0),(0,3,0,1),(0,5,1,2),
            (1,0,1,0),(1,2,0,0),(1,4,0,1),(1,6,1,0),
            (2,0,0,0),(2,3,1,0),(2,7,0,2),(2,1,0,1),
            (0,7,0,0),(1,1,0,2),(2,5,1,0),(0,2,1,1)]

def algo_check(pid,tier,seed,res,w):
    q=tier=="quick"
    group={"C16":1,"C17":2,"C18":3}[pid]
    lsub,lfull,nv=((4,6,2) if pid=="C16" else (5,7,2)) if q else ((5,8,2) if pid=="C16" else (6,9,2))
    if pid=="C18": lsub,lfull,nv=(3,4,2) if q else (4,6,2)
    combos=list(ALGO_QUICK)
    if not q: combos=[(k,t,c,a) for k in range(3) for t in range(8) for c in range(2) for a in range(3)]
    ts=[algo_target(*c) for c in combos]
    if not q: ts+=[algo_target(0,3,0,2,"c++14"),algo_target(1,1,0,0,"c++20"),algo_target(2,2,1,0,"c++20")]
    t0=time.time()
    build(w,ts)
    res.cov["build_s"]=round(time.time()-t0,1)
    lim=240 if q else 3000
    bounds=[(lsub,lfull,nv)]
    nlong={"C16":3,"C17":12,"C18":4}[pid]*(1 if q else 12)   # per combination and set of segments
    if not q: bounds.append((3,4,3))
    def one(j):
        t,b=j
        log=w.fresh(".ndjson");cur=w.fresh(".cur")
        env=dict(ENV,VT_LONG=str(nlong if b is bounds[0] else 0),VT_SEED=str(seed*1000+ts.index(t)))
        rc,o,e=sh([t.exe(w),log]+[str(x) for x in b]+[str(group),cur],timeout=lim,env=env)
        return t,b,log,cur,rc,e
    with ThreadPoolExecutor(NCPU) as ex: outs=list(ex.map(one,[(t,b) for b in bounds for t in ts]))
    kinds=("t","r") if pid=="C18" else ("t",)
    lines={}
    for t,b,log,cur,rc,e in outs:
        if rc!=0:
            at=open(cur).read().strip() if os.path.exists(cur) else "?"
            if len(res.found)<5:
                res.found.append(report_violation(pid,f"{'hang' if rc in(124,-14) else 'crash'} of an algorithm (exit {rc}) at: {at}",t,None,
                    f"{t.defs} bounds {b} group {group}\n"+e[-5000:]))
            continue
        for l in open(log):
            r=json.loads(l)
            if r["k"] not in kinds: continue
            wit=r.pop("w","")
            key=json.dumps(r,sort_keys=True)
            res.cov["outcomes"]+=1
            lines.setdefault(key,(l,t,wit))
        os.remove(log)
    items=list(lines.items())
    logs=[]
    ch=6000
    for i in range(0,len(items),ch):
        p=w.fresh(".ndjson"); open(p,"w").write("".join(v[0] for k,v in items[i:i+ch]))
        logs.append((p,ch,i))
    viols,total=validate(pid,logs,"AlgoTrace")
    res.cov["events_validated"]+=total
    res.cov["distinct_states"]+=len(items)
    res.cov["traces"]+=len(outs)
    res.cov["configurations"]+=len(outs)
    algs=set()
    for k,(l,t,wit) in items: algs.add(json.loads(l)["alg"])
    res.cov["algorithms"]=len(algs)
    res.rule=f"every sequence over {nv} values of length <= {lsub} with every subrange, and of length <= {lfull} as a whole, over every partition in 1 to 4 segments, every predicate/argument of the harness; {nlong*4} random sequences of up to 120 elements made of runs per combination; {len(ts)} combinations of collection kind, restitution list, constness, memory layout"
    for k,(l,t,wit) in items[:3]: res.samples.append({"config":t.defs,"outcome":json.loads(l)})
    done=set()
    for v in viols:
        l=log_line(v["log"],v["line"])
        k,(l,t,wit)=items[v["meta"]+v["line"]-1]
        r=json.loads(l)
        if (r["k"],r["alg"]) in done or len(res.found)>=5: continue
        done.add((r["k"],r["alg"]))
        res.found.append(report_violation(pid,f"algorithm {r['alg']}: "+("wrong outcome" if r["k"]=="t" else "wrong type passed"),t,None,
            f"{t.defs}\n{l}\nrun: {t.name} OUT {lsub} {lfull} {nv} {group}"))

# --------------------------------------------------------------- read-only

RO_BASE=["-std=c++17","-O0","-g1","-w","-fno-omit-frame-pointer","-ftemplate-depth=2000","-pthread"]

def readonly_check(pid,tier,seed,res,w):
    q=tier=="quick"
    ts=[Target(f"ro{k}","readonly.cpp",dict(KIND=k),base=RO_BASE) for k in range(3)]
    tt=[Target(f"th{k}","readonly.cpp",dict(KIND=k,THREADS=1),base=RO_BASE+["-fsanitize=thread"]) for k in range(3)]
    t0=time.time()
    build(w,ts+tt)
    res.cov["build_s"]=round(time.time()-t0,1)
    n,m=(3000,600) if q else (30000,6000)
    jobs=[(t,seed*100+i,n) for t in ts for i in range(2 if q else 8)]+[(t,seed*100+50+i,m) for t in tt for i in range(2 if q else 8)]
    def one(j):
        t,s,r=j
        log=w.fresh(".ndjson");cur=w.fresh(".cur")
        rc,o,e=sh([t.exe(w),log,str(s),str(r),cur],timeout=250 if q else 2000,env=ENV)
        return j,log,cur,rc,e
    with ThreadPoolExecutor(4) as ex: outs=list(ex.map(one,jobs))
    logs=[]
    for (t,s,r),log,cur,rc,e in outs:
        if rc!=0:
            at=open(cur).read().strip() if os.path.exists(cur) else "?"
            what="data race between read-only operations" if rc==66 else f"crash of a read-only operation (exit {rc})"
            if len(res.found)<5: res.found.append(report_violation(pid,f"{what} at: {at}",t,None,f"{t.defs} seed {s} rounds {r}\n"+e[:6000]))
            continue
        ls=open(log).readlines(); os.remove(log)
        for i in range(0,len(ls),8000):
            p=w.fresh(".ndjson"); open(p,"w").write("".join(ls[i:i+8000])); logs.append((p,len(ls[i:i+8000]),(t,s)))
        res.cov["traces"]+=r
        for l in ls: res.cov["op_"+json.loads(l)["op"]]+=1
        if ls and len(res.samples)<3: res.samples.append(json.loads(ls[len(ls)//2]))
    viols,total=validate(pid,logs,"ReadOnlyTrace")
    res.cov["events_validated"]+=total
    res.cov["model_states"],res.cov["model_transitions"]=model.readers(w,tier)
    res.rule="every interleaving of concurrent look-ups (Readers); random histories followed by const operations executed on write-protected memory; concurrent const operations under ThreadSanitizer"
    done=set()
    for v in viols:
        t,s=v["meta"]
        if (v["op"],v["clauses"]) in done or len(res.found)>=5: continue
        done.add((v["op"],v["clauses"]))
        res.found.append(report_violation(pid,f"read-only operation {v['op']} violates {v['clauses']}",t,None,f"{t.defs} seed {s}\n"+log_line(v["log"],v["line"])))

# ------------------------------------------------------- elements, as values

# (kind, signature or concept)
ACCESS=[(0,0)]+[(1,s) for s in range(8)]+[(2,s) for s in range(3)]

def access_check(pid,tier,seed,res,w):
    """elements reached and used through every access path (AccessTrace)"""
    q=tier=="quick"
    ts=[Target(f"acc{k}{s}","access.cpp",dict(KIND=k,SIG=s)) for k,s in ACCESS]
    t0=time.time()
    build(w,ts)
    res.cov["access_build_s"]=round(time.time()-t0,1)
    n=40 if q else 600
    jobs=[(t,seed*100+i) for t in ts for i in range(2 if q else 8)]
    def one(j):
        t,s=j
        log=w.fresh(".ndjson");cur=w.fresh(".cur")
        rc,o,e=sh([t.exe(w),log,str(s),str(n),cur],timeout=250 if q else 2000,env=ENV)
        return j,log,cur,rc,e
    with ThreadPoolExecutor(NCPU) as ex: outs=list(ex.map(one,jobs))
    logs=[]
    for (t,s),log,cur,rc,e in outs:
        if rc!=0:
            at=open(cur).read().strip() if os.path.exists(cur) else "?"
            if len(res.found)<5:
                res.found.append(report_violation(pid,f"{'hang' if rc in(124,-14) else 'crash'} (exit {rc}) at: {at}",t,None,
                    f"{t.defs} seed {s} episodes {n}\n"+e[:5000]))
            continue
        for p,k in split_log(w,log,4000,'{"op":"new"'): logs.append((p,k,(t,s)))
        with open(log) as f: res.cov["access_events"]+=sum(1 for l in f)-1
        os.remove(log)
        res.cov["traces"]+=n
    viols,total=validate(pid,logs,"AccessTrace")
    res.cov["events_validated"]+=total
    res.cov["access_configurations"]=len(ts)
    done=set()
    for v in viols:
        t,s=v["meta"]
        if (v["op"],v["clauses"]) in done or len(res.found)>=5: continue
        done.add((v["op"],v["clauses"]))
        res.found.append(report_violation(pid,f"access {v['op']} violates {v['clauses']}",t,None,
            f"{t.defs} seed {s} episodes {n}\n"+"".join(log_line(v["log"],k) or "" for k in range(max(2,v["line"]-1),v["line"]+1))))

def c19_check(pid,tier,seed,res,w):
    container_check(pid,tier,seed,res,w)
    access_check(pid,tier,seed,res,w)

def iter_check(pid,tier,seed,res,w):
    """iterators as cursors (Cursor, CursorModel, CursorTrace)"""
    q=tier=="quick"
    ts=[Target(f"iter{k}{s[-2:]}","iter.cpp",dict(KIND=k),flags=["-O1"] if s=="c++20" else [],std=s) for k in range(3) for s in("c++17","c++20")]
    t0=time.time()
    with ThreadPoolExecutor(1) as ex:
        fut=ex.submit(model.cursor,w,tier)
        build(w,ts)
        res.cov["model_states"],res.cov["model_transitions"]=fut.result()
    res.cov["build_s"]=round(time.time()-t0,1)
    n=30 if q else 200
    jobs=[(t,seed*1000+i) for t in ts for i in range(4 if q else 24)]
    def one(j):
        t,s=j
        log=w.fresh(".ndjson");cur=w.fresh(".cur")
        rc,o,e=sh([t.exe(w),log,str(s),str(n),cur],timeout=300,env=ENV)
        return j,log,cur,rc,e
    with ThreadPoolExecutor(NCPU) as ex: outs=list(ex.map(one,jobs))
    logs=[];seen=set();ops=collections.Counter()
    for (t,s),log,cur,rc,e in outs:
        if rc!=0:
            at=open(cur).read().strip() if os.path.exists(cur) else "?"
            if len(res.found)<5:
                res.found.append(report_violation(pid,f"{'hang' if rc in(124,-14) else 'crash'} (exit {rc}) at: {at}",t,None,f"{t.defs} seed {s} episodes {n}\n"+e[:5000]))
            continue
        # answers already obtained from the same driver are not validated again
        keep=[]
        with open(log) as f:
            hdr=next(f)
            for l in f:
                res.cov["events"]+=1
                if (t.name,l) in seen: continue
                seen.add((t.name,l)); keep.append(l)
        os.remove(log)
        for i in range(0,len(keep),20000):
            p=w.fresh(".ndjson")
            open(p,"w").write(hdr+"".join(keep[i:i+20000]))
            logs.append((p,len(keep[i:i+20000])+1,(t,s)))
        for l in keep: ops[l[7:l.index('"',7)]]+=1
        res.cov["traces"]+=n
    res.cov["distinct_states"]=len(seen)
    for k,v in ops.items(): res.cov["op_"+k]=v
    viols,total=validate(pid,logs,"CursorTrace")
    res.cov["events_validated"]+=total
    done=set()
    for v in viols:
        t,s=v["meta"]
        if (v["op"],v["clauses"]) in done or len(res.found)>=5: continue
        done.add((v["op"],v["clauses"]))
        res.found.append(report_violation(pid,f"iterator operation {v['op']} violates {v['clauses']}",t,None,
            f"{t.defs} seed {s} episodes {n}\n"+(log_line(v["log"],v["line"]) or "")))

CHECKS={"C22":iter_check,"C19":c19_check,"C16":algo_check,"C17":algo_check,"C18":algo_check,"C20":readonly_check}

def level_of(pid): return LEVELS.get(pid,"model_checking")
LEVELS={}

def main():
    pid=sys.argv[1]
    tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
    seed=int(os.environ.get("VERIF_SEED","1"))
    t0=time.time()
    w=Work(pid,tier); res=Result()
    rc=0
    try:
        try: CHECKS.get(pid,container_check)(pid,tier,seed,res,w)
        except Violation as v:
            res.found.append(report_violation(pid,v.what,None,None,v.text,v.files))
        for d in res.found:
            print(open(os.path.join(d,"report.txt")).read()[:3000])
        for d in res.found: print(f"VIOLATION property={pid} replay={d}")
        rc=1 if res.found else 0
        evidence(pid,tier,seed,res,time.time()-t0)
        if rc==0: print(f"OK property={pid} {dict(res.cov)} {time.time()-t0:.0f}s")
    except Broken as b:
        print("BROKEN:",b); rc=2
    except Exception:
        traceback.print_exc(); rc=2
    finally:
        w.close()
    sys.exit(rc)

def evidence(pid,tier,seed,res,wall):
    os.makedirs(os.path.join(ROOT,"evidence"),exist_ok=True)
    c=dict(res.cov)
    cov=dict(states=c.get("model_states",0)+c.get("distinct_states",0),
             transitions=c.get("model_transitions",0)+c.get("events_validated",0),
             traces_validated_against_impl=c.get("traces",0),
             samples=res.samples or [{"note":"no sample"}],detail=c)
    if res.rule: cov["rule"]=res.rule
    json.dump(dict(property=pid,tier=tier,seed=seed,level=level_of(pid),coverage=cov,
                   assumptions=res.assumptions,wall_s=round(wall,1),violations=len(res.found)),
              open(os.path.join(ROOT,"evidence",f"{pid}.json"),"w"),indent=1)

if __name__=="__main__": main()
