"""What each property's check executes on the real code (container part)."""
import gen

COPY,MOVE,ASSIGN,EQ,CTOR,ALLOC,USER=1,2,4,8,16,32,64
ELEM=COPY|MOVE|ASSIGN|EQ|CTOR|USER

REG=[0,1,2,4,5,8]          # well-behaved types
def W(**kw): return kw

# weights of operations per property
WEIGHTS={
 "C01":W(ins=60,er=8,err=2,clr=1,clrt=2,shrt=3,rest=4,reg=4,swp=1,mva=1,cpa=1,insr=4,qry=1),
 "C02":W(insr=50,ctorr=14,ins=10,er=6,err=3,clr=1,clrt=2,shrt=3,rest=3,reg=3,swp=1,mva=1),
 "C03":W(ins=24,insr=20,er=26,err=30,clr=2,clrt=4,shrt=1,rest=2,reg=3),
 "C04":gen.BASE,
 "C05":W(ins=22,insr=14,ctorr=4,reg=10,qry=30,clrt=4,shrt=4,rest=6,swp=3,mva=2,mvc=2,mvca=2,cpc=2,cpca=2,cpa=2,new=1,er=3,clr=1),
 "C06":W(ins=34,insr=14,er=8,err=5,clr=2,clrt=4,shr=4,shrt=8,res=5,rest=14,reg=3,qry=8,swp=1),
 "C07":W(ins=34,insr=14,er=12,err=8,clr=1,clrt=2,shr=1,shrt=1,res=2,rest=5,reg=5,qry=6,swp=4,mvc=3,mva=2,mvca=2,eq=3,cpc=2,cpa=1,ali=3),
 "C08":W(ins=30,insr=10,er=6,err=3,clr=1,reg=3,cpc=12,cpca=8,cpa=14,shr=1,rest=2,ctorr=2,new=1,eq=2,swp=1,mva=1),
 "C09":W(ins=30,insr=10,er=6,err=2,clr=1,reg=3,mvc=10,mvca=10,mva=12,swp=12,rest=2,ctorr=2,new=1,qry=2,cpc=1),
 "C10":W(ins=24,insr=10,er=6,err=2,clr=2,clrt=3,reg=5,rest=2,cpc=5,cpa=4,mva=1,eq=40,swp=1),
 "C11":W(ins=24,insr=8,er=3,err=2,clr=1,reg=2,shr=1,shrt=1,rest=2,ctorr=4,new=3,cpc=7,cpca=7,cpa=9,mvc=7,mvca=7,mva=9,swp=7,eq=1),
 "C12":gen.BASE,
 "C13":gen.BASE,
 "C14":gen.BASE,
 "C15":gen.BASE,
 "C19":W(ins=40,insr=16,er=8,err=4,clrt=1,reg=2,swp=2,mva=2,mvc=2,cpc=2,cpa=2,shrt=2,rest=2,mvca=2,cpca=2),
 "C21":W(ali=40,ins=20,insr=6,er=6,err=2,shrt=8,shr=2,rest=3,clrt=1,swp=1),
}
# operations fault injection is aimed at
TARGETS=W(ins=26,insr=20,er=8,err=7,clr=1,clrt=1,shr=2,shrt=3,res=2,rest=4,reg=2,ctorr=4,
          cpc=4,mvc=1,cpa=5,mva=5,cpca=3,mvca=5,swp=1,eq=4,ali=5,new=1)

def rnd(eps,length,**kw): return ("rnd",eps,length,kw)
def flt(eps,mask,**kw): return ("flt",eps,mask,kw)

def runs(pid,tier):
    """list of (driver_target kwargs, list of generator requests)"""
    m=1 if tier=="quick" else 8
    # some histories with long segments besides
    mx=[]
    if pid in("C01","C02","C06","C13"):
        # segments of bounded size
        h=[rnd((14 if pid=="C13" else 20)*m,60,k=1,big=4,slots=(0,1))]
        if pid=="C13": h.append(flt(16*m,ALLOC|ELEM,k=1))
        mx=[(dict(kind=k,lean=1,alf=32),h) for k in range(4)]
    return mx+[(d,r+[rnd((3 if d.get("lean") else 6)*m,60,k=2,big=24,slots=(0,1))]) for d,r in runs_(pid,tier)]

def runs_(pid,tier):
    q=tier=="quick"
    m=1 if q else 8
    w=WEIGHTS[pid]
    F=lambda k,**kw: dict(kind=k,**kw)
    if pid in("C01","C02","C03","C04","C06","C07","C19","C21"):
        reqs=[rnd(90*m,40),rnd(30*m,70,k=1),rnd(40*m,40,k=2,slots=(0,1))]
        out=[(F(k),reqs) for k in range(4)]
        if pid=="C19":
            out=[(F(k),[rnd(80*m,40),rnd(40*m,40,k=4)]) for k in range(4)]
        return out
    if pid=="C05":
        return [(F(k,fill=16),[rnd(50*m,40),rnd(20*m,60,universe=range(25),k=16),rnd(30*m,40,k=2)]) for k in range(4)]
    if pid in("C08","C09","C10"):
        return [(F(k,lean=1,alf=a),[rnd(120*m,40),rnd(60*m,40,k=2),rnd(40*m,30,k=1,vmax=3)]) for k in range(4) for a in ((0,) if q else (0,7))]
    if pid=="C11":
        al=[(0,0),(1,0),(2,0),(3,0),(0,7),(2,7),(0,1),(2,2),(0,4),(2,4),(3,1),(1,2),(0,16),(2,8)]
        if not q: al=[(k,a) for k in range(4) for a in(0,1,2,4,3,5,6,7,8,15,16,23)]
        return [(F(k,lean=1,alf=a),[rnd(60*m//(1 if q else 2),40,als=(1,2,3))]) for k,a in al]
    if pid=="C12":
        return [(F(k),[flt(110*m,ELEM),flt(30*m,ELEM,k=1),rnd(10*m,40),flt(30*m,COPY|ASSIGN|EQ),flt(30*m,MOVE|CTOR|USER)]) for k in range(4)]
    if pid=="C13":
        return [(F(k),[flt(90*m,ALLOC),flt(40*m,ALLOC,k=1),rnd(10*m,40),flt(30*m,ALLOC|ELEM)]) for k in range(4)]
    if pid=="C14":
        return [(F(k),[rnd(60*m,40,universe=[3,4,5,6,7]),rnd(70*m,40,universe=[3,4,5,6,7,0],k=3),rnd(30*m,50,universe=[3,4,5,6,7],k=1)]) for k in range(4)]
    if pid=="C15":
        return [(F(k),[rnd(70*m,40),flt(40*m,ELEM|ALLOC),rnd(30*m,40,k=1)]) for k in range(4)]
    raise KeyError(pid)

def script(r,pid,req):
    kind,eps,x,kw=req
    w=WEIGHTS[pid]
    if kind=="rnd": return gen.random_script(r,eps,x,w,**kw)
    return gen.fault_script(r,eps,x,w,TARGETS,**kw)

def model_plan(pid,tier,ntargets):
    """(number of transitions of the model to execute, fault mask) per driver;
    None: all of them"""
    q=tier=="quick"
    if pid=="C12": return [(250 if q else 6000,ELEM),(60 if q else 1000,ASSIGN|MOVE)]
    if pid=="C13": return [(250 if q else 6000,ALLOC)]
    if pid=="C15": return [(700 if q else 20000,0),(80 if q else 2000,ELEM|ALLOC)]
    if pid=="C11": return [(300 if q else 8000,0)]
    return [(1500 if q else 60000,0)]

def micro(pid,tier):
    """histories recorded down to their elementary steps"""
    m=1 if tier=="quick" else 10
    return {"C15":[rnd(60*m,40),flt(30*m,ELEM|ALLOC)],
            "C11":[rnd(20*m,40,als=(1,2,3))],
            "C12":[flt(40*m,ELEM)],
            "C13":[flt(40*m,ALLOC)],
            "C14":[rnd(30*m,40,universe=[3,4,5,6,7])]}.get(pid,[])
