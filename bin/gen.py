#!/usr/bin/env python3
"""Script generators. A script is a list of episodes for harness/driver.cpp."""
import random

NT=9
POS=8            # positions
BIG=0            # long segments
COPY={0,1,2,4,5,6,8}
ALIGNED={2}

def rtype(r,types): return r.choice(types)

def g_ins(r,c,types,vmax,svars=None,pvars=None):
    t=rtype(r,types)
    svar=r.choice(svars or [0,1,2,3,4,5,6,7,7,8,9,10,11,12])
    pvar=r.choice(pvars or [0,0,1,2,3,4,5,6])
    ht=r.choice([t,t,t,rtype(r,types),-1])
    return f"ins {c} {t} {svar} {pvar} {ht} {r.randrange(POS)} {r.randrange(1,vmax)}"

def g_insr(r,c,types,vmax,nmax=4):
    sform=r.randrange(13)
    pvar=r.choice([0,0,1,2,3,4,5,6])
    if sform==12: pvar=r.choice([5,6])
    n=r.randrange(0,nmax+1)
    if BIG and r.random()<.5: n=r.randrange(BIG)
    t=rtype(r,types)
    prs=" ".join(f"{rtype(r,types)} {r.randrange(1,vmax)}" if sform in(5,6,7) else f"{t} {r.randrange(1,vmax)}" for _ in range(n))
    ht=r.choice([t,t,rtype(r,types),-1])
    return f"insr {c} {sform} {pvar} {ht} {r.randrange(POS)} {n} {prs}"

def g_er(r,c,types):
    return f"er {c} {rtype(r,types)} {r.randrange(POS)} {r.randrange(6)}"
def g_err(r,c,types):
    return f"err {c} {rtype(r,types)} {r.randrange(POS)} {r.choice(types+[-1])} {r.randrange(POS)} {r.choice([0,0,1,2,3,4,5])}"

def g_any(r,w,slots,types,vmax):
    ops=list(w); op=r.choices(ops,[w[o] for o in ops])[0]
    c=r.choice(slots); d=r.choice(slots); t=rtype(r,types)
    al=r.choice([1,1,2,3])
    if op=="ins": return g_ins(r,c,types,vmax)
    if op=="insr": return g_insr(r,c,types,vmax)
    if op=="ali": return f"ali {c} {t} {r.randrange(POS)} {r.randrange(3)} {r.randrange(7)} {r.choice([t,t,rtype(r,types),-1])} {r.randrange(POS)}"
    if op=="er": return g_er(r,c,types)
    if op=="err": return g_err(r,c,types)
    if op=="clr": return f"clr {c}"
    if op in("clrt","shrt"): return f"{op} {c} {t} {r.randrange(3)}"
    if op=="shr": return f"shr {c}"
    if op=="res": return f"res {c} {r.randrange(BIG*4 if BIG else 10)}"
    if op=="rest": return f"rest {c} {t} {r.randrange(BIG*4) if BIG and r.random()<.7 else r.choice([0,1,2,3,5,8,-1,-2,-3])} {r.randrange(3)}"
    if op=="reg": return f"reg {c} {r.choice([1,1,1,1,2,3])} {t}"
    if op=="qry": return f"qry {c} {t} {r.randrange(13)} {r.randrange(3)}"
    if op=="ctorr":
        sform=r.randrange(12); n=r.randrange(BIG or 5)
        prs=" ".join(f"{rtype(r,types) if sform in(5,6,7) else t} {r.randrange(1,vmax)}" for _ in range(n))
        return f"ctorr {c} {al} {sform} {n} {prs}"
    if op in("cpc","mvc","cpa","mva"): return f"{op} {c} {d}"
    if op in("cpca","mvca"): return f"{op} {c} {d} {al}"
    if op in("swp","eq"): return f"{op} {c} {d} {r.randrange(2)}"
    if op=="new": return f"new {c} {al}"
    if op=="del": return f"del {c}"
    raise ValueError(op)

def pick_types(r,universe,k=None):
    u=list(universe)
    return r.sample(u,min(len(u),k or r.choice([1,2,2,3,3,4])))

def random_script(r,episodes,length,w,universe=range(NT),slots=(0,1,2),vmax=4,als=(1,1,2),k=None,big=0):
    global POS,BIG
    POS,BIG=(41,big) if big else (8,0)
    out=[]
    for _ in range(episodes):
        ty=pick_types(r,universe,k)
        out.append("ep 0")
        for s in slots: out.append(f"new {s} {r.choice(als)}")
        for _ in range(length): out.append(g_any(r,w,list(slots),ty,vmax))
    return out

def fill(r,c,types,vmax,n):
    """brings a collection to an interesting state, mostly without failures"""
    out=[]
    for _ in range(n):
        x=r.random(); t=rtype(r,types)
        if x<.62: out.append(f"ins {c} {t} 7 {r.choice([0,0,1])} {t} {r.randrange(POS)} {r.randrange(1,vmax)}")
        elif x<.74: out.append(f"rest {c} {t} {r.choice([1,2,3,4,6])} 0")
        elif x<.84: out.append(f"shrt {c} {t} 0")
        elif x<.92: out.append(f"er {c} {t} {r.randrange(POS)} {r.randrange(6)}")
        else: out.append(g_ins(r,c,types,vmax))
    return out

def fault_script(r,episodes,mask,w,target_w,universe=range(NT),slots=(0,1),vmax=4,pre=10,post=3,maxk=40,als=(1,1,2),k=None):
    """prefix, operation that faults at each of its steps in turn, suffix"""
    global POS,BIG
    POS,BIG=8,0
    out=[]
    for _ in range(episodes):
        ty=pick_types(r,universe,k)
        if mask&15 and r.random()<.5:                    # types whose operations may throw
            ty=list(dict.fromkeys([r.choice([t for t in universe if t in(6,7)] or ty)]+ty[:2]))
        out.append(f"ep {mask} {maxk}")
        for s in slots: out.append(f"new {s} {r.choice(als)}")
        out+=fill(r,slots[0],ty,vmax,r.randrange(2,pre+1))
        x=r.random()
        if x<.35 and len(slots)>1: out+=fill(r,slots[1],ty,vmax,r.randrange(1,5))
        elif x<.6 and len(slots)>1: out.append(f"cpa {slots[1]} {slots[0]}")
        if r.random()<.5: out.append(f"rest {slots[0]} {ty[0]} 9 0")   # spare room
        tgt=g_any(r,target_w,list(slots)[:1]*3+list(slots),ty if r.random()<.5 else ty[:1],vmax).split()
        if tgt[0] in("cpc","cpca","mvc","mvca","cpa","mva","eq","swp") and tgt[1]==tgt[2] and r.random()<.9:
            tgt[1]=str(slots[1]) if tgt[2]==str(slots[0]) else str(slots[0])
        out.append("!"+" ".join(tgt))
        # what a failure left behind shows up when the segment is used again
        c=tgt[1]; t=tgt[2] if tgt[0] in("ins","er","err","ali","clrt","shrt","rest") else str(ty[0])
        again=[f"ins {c} {t} 7 0 -1 0 {r.randrange(1,vmax)}",f"ins {c} {t} 7 1 {t} {r.randrange(POS)} {r.randrange(1,vmax)}",
               f"er {c} {t} {r.randrange(POS)} {r.randrange(6)}",f"err {c} {t} {r.randrange(POS)} -1 {r.randrange(POS)} 0",
               f"shrt {c} {t} 0",f"insr {c} 0 0 -1 0 2 {t} 1 {t} 2"]
        for x in range(r.randrange(1,4)): out.append(again[0] if x==0 and r.random()<.6 else r.choice(again))
        for _ in range(post): out.append(g_any(r,w,list(slots),ty,vmax))
    return out

BASE=dict(ins=30,insr=15,er=8,err=6,clr=1,clrt=2,shr=1,shrt=2,res=1,rest=3,reg=3,qry=4,
  ctorr=2,cpc=2,mvc=2,cpa=2,mva=2,cpca=2,mvca=2,swp=3,eq=4,new=1,ali=4)
if __name__=="__main__":
    import sys
    print("\n".join(random_script(random.Random(int(sys.argv[1])),int(sys.argv[2]),int(sys.argv[3]),BASE)))
