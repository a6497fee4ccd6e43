"""Checks spec/PolyModel.tla with TLC and turns its transitions into scripts
for the real code that cover them."""
import collections, json, os, random, re
from lib import *

ONE=dict(slots=1,types=[0,3],vals=[1],maxlen=3,maxcap=4,maxsrc=2,als=[1],norm=1,growth="one",edges=1,cap0=0,prop="ALL",alf=0,mx=0,start=1)
TWO=dict(ONE,slots=2,types=[0,3],maxlen=1,maxcap=2,maxsrc=1,als=[1,2])
def C(base,ops,**kw): return dict(base,ops=ops.split(),**kw)

# states and transitions explored for each property
MODELS={
 "C01":C(ONE,"ins er rest shrt reg"),
 "C02":C(ONE,"insr ctorr put er rest shrt reg",maxcap=3),
 "C03":C(ONE,"put er err clr clrt rest",types=[0,3,6],maxlen=2,maxcap=2),
 "C04":C(TWO,"put er err clr clrt reg swp mva cpa",als=[1],maxcap=1),
 "C05":C(ONE,"put insr qry clrt shrt rest reg mvc swp new",types=[0,3],maxlen=1,maxcap=1,slots=2,maxsrc=1),
 "C06":C(ONE,"put insr er res rest shr shrt clrt qry",maxcap=4,maxsrc=2),
 "C07":C(ONE,"ins put er err res rest reg qry shrt"),
 "C08":C(TWO,"put er reg cpc cpca cpa",maxcap=1),
 "C09":C(TWO,"put er reg mvc mvca mva swp"),
 "C10":C(TWO,"put er reg eq cpa",norm=0,vals=[1,2],types=[0,4],als=[1]),
 "C11":C(TWO,"put er new del ctorr cpc cpca cpa mvc mvca mva swp"),
 "C12":C(ONE,"ins insr ali er err clr clrt res rest shr shrt reg put",types=[0,6]),
 "C13":C(ONE,"ins insr ali er err clr clrt res rest shr shrt reg put"),
 "C14":C(TWO,"put er reg cpc cpca cpa mva mvca eq swp",types=[3,4],maxcap=1),
 "C15":C(ONE,"ins insr ali er err clr clrt res rest shr shrt reg put"),
 "C19":C(ONE,"ins put er shrt rest"),
 "C21":C(ONE,"ali put er shrt rest",types=[0,6],maxlen=4,maxcap=6),
}
# segments of bounded size (allocators with a small max_size): length_error
MAXED=C(ONE,"ins insr ali put er res rest shrt",types=[0],maxlen=8,maxcap=10,maxsrc=2,mx=8)
# deeper exploration (thorough tier)
DEEP={
 "C01":C(ONE,"ins er rest shrt reg clrt",types=[0,3,6],maxlen=2,maxcap=3),
 "C02":C(ONE,"insr ctorr put er rest shrt reg",maxsrc=3,maxcap=4),
 "C03":C(ONE,"put er err clr clrt rest",types=[0,3,6],maxlen=3,maxcap=3),
 "C04":C(TWO,"put er err clr clrt shrt rest reg swp mva cpa",als=[1]),
 "C05":C(ONE,"put insr qry clrt shrt rest reg mvc swp new",types=[0,3,6],maxlen=1,maxcap=1,slots=2,maxsrc=1),
 "C06":C(ONE,"put insr er res rest shr shrt clrt qry",maxlen=4,maxcap=6,maxsrc=2),
 "C07":C(ONE,"ins insr put er err res rest reg qry shrt",maxlen=3,maxcap=5),
 "C08":C(TWO,"put er reg rest cpc cpca cpa"),
 "C09":C(TWO,"put er reg mvc mvca mva swp",maxlen=2,maxcap=2),
 "C10":C(TWO,"put er reg eq cpa",norm=0,vals=[1,2],types=[0,4],als=[1],maxlen=2,maxcap=2),
 "C11":C(TWO,"put er new del ctorr cpc cpca cpa mvc mvca mva swp",maxlen=2),
 "C14":C(TWO,"put er reg cpc cpca cpa mva mvca eq swp",types=[3,4,6],maxcap=1,als=[1]),
}
# real types that behave like a model type
ALIKE={0:[0,1,2,5,8],3:[3],4:[4],6:[6],7:[7]}

def run(w,cfg,workers=4,timeout=700):
    """model checks the configuration; returns (states, transitions, edges)"""
    p=w.fresh(".json"); json.dump(cfg,open(p,"w"))
    rc,o,e=tlc("PolyModel.tla","PolyModel.cfg",env={"VCFG":p},workers=workers,heap="4g",timeout=timeout)
    m=re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left",o)
    if rc!=0 or not m: raise Broken("PolyModel: "+"\n".join(l for l in o.splitlines() if not l.startswith('"E'))[-2500:]+e[-500:])
    edges=[]
    for l in o.splitlines():
        if l.startswith('"E<<'):
            x=json.loads(json.loads(l)[1:].replace("<<","[").replace(">>","]"))
            edges.append((x[0],x[1],x[2],x[3],json.dumps(x[4]),json.dumps(x[5])))
    edges=sorted(set((op,json.dumps(a),json.dumps(s),x,k,q) for op,a,s,x,k,q in edges))
    edges=[(op,json.loads(a),json.loads(s),x,k,q) for op,a,s,x,k,q in edges]
    return int(m.group(2)),int(m.group(1)),edges

def line(r,e,m,vmax):
    """script line for a transition; m maps model types to real ones"""
    op,a,src,x,k,q=e
    T=lambda t:t if t<0 else m[t]
    V=lambda v:v if v<90 else r.randrange(1,vmax)
    pv=lambda pf:{0:[0],1:[1,2],2:[3,4],3:[5,6]}[pf]
    if op=="ins":
        sv={(0,0):[0,1,3,8],(0,1):[2,9],(0,2):[7,7,12],(1,0):[4,5,10],(1,1):[6,11]}[(a[6],a[7])]
        return f"ins {a[0]} {T(a[1])} {r.choice(sv)} {r.choice(pv(a[3]))} {T(a[4])} {a[5]} {V(a[2])}"
    if op=="ali": return f"ali {a[0]} {T(a[1])} {a[2]} {r.randrange(3)} {r.choice(pv(a[3]))} {T(a[4])} {a[5]}"
    if op in("insr","ctorr"):
        reg,how=(a[4],a[5]) if op=="insr" else (a[2],a[3])
        mixed=len({s[0] for s in src})!=1
        sf=[5] if reg==0 else [6,7] if mixed else {0:[0,1,2,8,9,10,11],1:[3,4],2:[12]}[how]
        if op=="ctorr": sf=[s for s in sf if s<12] or [0]
        prs=" ".join(f"{T(s[0])} {V(s[1])}" for s in src)
        if op=="ctorr": return f"ctorr {a[0]} {a[1]} {r.choice(sf)} {len(src)} {prs}"
        return f"insr {a[0]} {r.choice(sf)} {r.choice(pv(a[1]))} {T(a[2])} {a[3]} {len(src)} {prs}"
    if op=="er": return f"er {a[0]} {T(a[1])} {a[2]} {a[5]*2+r.randrange(2)}"
    if op=="err":
        if a[1]>=0: return f"err {a[0]} {T(a[1])} {a[2]} {T(a[1])} {a[4]} {a[5]*2+r.randrange(2)}"
        segs=json.loads(k)[a[0]][1]
        def at(p):
            for s in segs:
                n=s[2] if isinstance(s[2],int) else len(s[2])
                if p<n: return f"{T(s[0])} {p}"
                p-=n
            return "-1 0"
        return f"err {a[0]} {at(a[2])} {at(a[4])} {r.randrange(2)}"
    if op in("clr","shr","del"): return f"{op} {a[0]}"
    if op in("clrt","shrt"): return f"{op} {a[0]} {T(a[1])} {r.randrange(3)}"
    if op=="res": return f"res {a[0]} {a[1]}"
    if op=="rest": return f"rest {a[0]} {T(a[1])} {a[2]} {a[3]*r.choice([1,2])}"
    if op=="reg": return f"reg {a[0]} 1 {T(a[1])}"
    if op=="qry": return f"qry {a[0]} {T(a[1])} {a[2]} {r.randrange(3)}"
    if op in("swp","eq"): return f"{op} {a[0]} {a[1]} {r.randrange(2)}"
    return " ".join([op]+[str(x) for x in a])

class Graph:
    def __init__(self,cfg,edges):
        self.cfg=cfg; self.edges=edges
        self.out=collections.defaultdict(list)
        for i,e in enumerate(edges): self.out[e[4]].append(i)
        self.init=json.dumps([[min(cfg["als"]),[]] if cfg["start"] else [] for _ in range(cfg["slots"])])
        # one edge per (state, successor) for navigation
        self.nav={}
        for k,l in self.out.items():
            d={}
            for i in l:
                if edges[i][5]!=k: d.setdefault(edges[i][5],i)
            self.nav[k]=list(d.values())
        # shortest paths from the initial state
        self.path={self.init:None}; qu=collections.deque([self.init])
        while qu:
            k=qu.popleft()
            for i in self.nav.get(k,()):
                d=edges[i][5]
                if d not in self.path: self.path[d]=i; qu.append(d)
    def prefix(self,k):
        out=[]
        while self.path[k] is not None:
            i=self.path[k]; out.append(i); k=self.edges[i][4]
        return out[::-1]

def episode(r,g,seq,mask=0,maxk=40,target=None,suffix=()):
    m={t:r.choice(ALIKE[t]) for t in g.cfg["types"]}
    out=["ep 0" if target is None else f"ep {mask} {maxk}"]
    for s in range(g.cfg["slots"]):
        out.append(f"new {s} {min(g.cfg['als'])}")
    for i in seq: out.append(line(r,g.edges[i],m,6))
    if target is not None:
        out.append("!"+line(r,g.edges[target],m,6))
        for i in suffix: out.append(line(r,g.edges[i],m,6))
    return out

def tours(r,g,quota,maxlen=60):
    """episodes executing quota of the transitions (all if None)"""
    want=list(range(len(g.edges)))
    if quota is not None and quota<len(want): want=r.sample(want,quota)
    todo=collections.defaultdict(list)
    for i in want: todo[g.edges[i][4]].append(i)
    for l in todo.values(): r.shuffle(l)
    left=len(want); out=[]; k=g.init; seq=[]
    while left:
        if not todo.get(k) or len(seq)>=maxlen:
            # nearest state with transitions to do, from here or from the start
            start=k if len(seq)<maxlen else g.init
            p=bfs(g,start,todo,6 if start!=g.init else None)
            if p is None or start!=k:
                if seq: out+=episode(r,g,seq); seq=[]
                k=g.init
                if p is None: p=bfs(g,k,todo,None)
                if p is None: break
            for i in p: seq.append(i); k=g.edges[i][5]
            continue
        i=todo[k].pop(); left-=1
        seq.append(i); k=g.edges[i][5]
    if seq: out+=episode(r,g,seq)
    return out

def bfs(g,start,todo,lim):
    if todo.get(start): return []
    prev={start:None}; qu=collections.deque([(start,0)])
    while qu:
        k,d=qu.popleft()
        if lim is not None and d>=lim: continue
        for i in g.nav.get(k,()):
            t=g.edges[i][5]
            if t in prev: continue
            prev[t]=i
            if todo.get(t):
                p=[]
                while prev[t] is not None: p.append(prev[t]); t=g.edges[prev[t]][4]
                return p[::-1]
            qu.append((t,d+1))
    return None

def faults(r,g,quota,mask):
    """episodes in which a transition fails at each of its steps in turn"""
    want=[i for i,e in enumerate(g.edges) if e[3]=="" and e[0]!="qry"]
    # spread over operations, not over argument combinations
    by=collections.defaultdict(list)
    for i in want: by[(g.edges[i][0])].append(i)
    for l in by.values(): r.shuffle(l)
    W=dict(ins=6,insr=6,ali=2,er=3,err=3,rest=2,shrt=2,res=1,shr=1,reg=1,clr=.3,clrt=.3)
    out=[];n=0
    ops=list(by); wts=[W.get(o,1) for o in ops]
    if quota is None: seq=want
    else:
        seq=[]
        while len(seq)<min(quota,len(want)):
            o=r.choices(ops,wts)[0]
            if by[o]: seq.append(by[o].pop())
    for i in seq:
        e=g.edges[i]
        suf=[]; k=e[4]
        for _ in range(r.randrange(1,4)):
            c=[j for j in g.out[k] if g.edges[j][0] in("put","ins","er","err","shrt","insr") and g.edges[j][3]==""]
            if not c: break
            j=r.choice(c); suf.append(j); k=g.edges[j][5]
        out+=episode(r,g,g.prefix(e[4]),mask,40,i,suf)
    return out

def segment(w,tier):
    """Segment.tla in every configuration; returns (states, transitions).
    Without the guards the model must show the failures they prevent."""
    ml,mc=(4,6) if tier=="quick" else (6,9)
    ns=nt=0
    def one(x):
        split,nt_,cp,guard=x
        cfg=w.fresh(".cfg")
        b=lambda v:"TRUE" if v else "FALSE"
        open(cfg,"w").write(f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\nCONSTANTS\n MaxLen = {ml}\n MaxCap = {mc}\n Split = {b(split)}\n NothrowMove = {b(nt_)}\n Copyable = {b(cp)}\n Guarded = {b(guard)}\n")
        return x,tlc("Segment.tla",cfg,workers=1,timeout=700)
    xs=[(s,n,c,g) for s in(0,1) for n in(0,1) for c in(0,1) for g in((1,0) if not n else (1,))]
    with ThreadPoolExecutor(4) as ex: res=list(ex.map(one,xs))
    for x,(rc,o,e) in res:
        m=re.search(r"(\d+) states generated, (\d+) distinct states found",o)
        if x[3] and (rc!=0 or not m): raise Broken(f"Segment {x}: "+o[-2000:])
        if not x[3] and "Invariant Inv is violated" not in o: raise Broken(f"Segment {x}: unguarded model found correct")
        if x[3]: ns+=int(m.group(2)); nt+=int(m.group(1))
    return ns,nt

def cursor(w,tier):
    """CursorModel.tla: (segment, position) cursors refine flat positions"""
    n,m=(4,2) if tier=="quick" else (5,3)
    p=w.fresh(".cfg")
    open(p,"w").write(f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OnElement Position Laws\nPROPERTIES Steps Reaches\nCONSTANTS\n NSeg = {n}\n MaxLen = {m}\n")
    rc,o,e=tlc("CursorModel.tla",p,workers=2,heap="2g",timeout=800)
    x=re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left",o)
    if rc!=0 or not x: raise Broken("CursorModel: "+o[-1500:]+e[-500:])
    return int(x.group(2)),int(x.group(1))

def readers(w,tier):
    """Readers.tla: concurrent look-ups; with memoisation it must fail"""
    th,lk=("{1, 2}",2) if tier=="quick" else ("{1, 2, 3}",2)
    base=lambda m:f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NoRace Exact\n{'PROPERTY Unchanged' if m=='FALSE' else ''}\nCONSTANTS\n Threads = {th}\n Types = {{0, 1}}\n Aliases = {{0, 1}}\n NBuckets = 2\n Lookups = {lk}\n Memo = {m}\n"
    r=[]
    for m in("FALSE","TRUE"):
        cfg=w.fresh(".cfg"); open(cfg,"w").write(base(m))
        r.append(tlc("Readers.tla",cfg,workers=4,heap="6g",timeout=3000))
    m=re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left",r[0][1])
    if r[0][0]!=0 or not m: raise Broken("Readers: "+r[0][1][-2000:])
    if "Invariant NoRace is violated" not in r[1][1]: raise Broken("Readers: memoising model found correct")
    return int(m.group(2)),int(m.group(1))
