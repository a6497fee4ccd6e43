#!/usr/bin/env python3
"""Development tool for planted bugs (not used by any check).
 seeds.py verify ID...   applies each patch to a scratch copy, builds, runs the tests and the demo
 seeds.py catch ID... [--all]  applies each patch to a scratch copy and runs the check of its property (or all) on it
"""
import json,os,subprocess,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S=os.path.join(R,"seeded")
def sh(c,cwd=None,t=1800):
    p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    return p.returncode,p.stdout.decode("utf8","replace")
W=f"/tmp/seedwt-{os.getpid()}"
NOTES=[]
def fresh():
    sh(f"rm -rf {W}; cp -a /repo {W} && git -C {W} checkout -q -- .")
def tests():
    """the repository's own tests, in a scratch copy"""
    B=f"{W}/_vp"
    e="env -u CXXFLAGS CC=/usr/bin/gcc CXX=/usr/bin/g++ LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 "
    rc,o=sh(e+f"cmake -S /opt/vp/harness -B {B} -G Ninja -DREPO={W} -DCMAKE_CXX_COMPILER=/usr/bin/g++ >/dev/null && "+e+f"ninja -C {B} -k 0 vp_tests",t=3000)
    if rc: return "BUILD FAILED "+o[-800:]
    os.makedirs(B+"/results",exist_ok=True)
    sh(e+f"python3 /opt/vp/harness/run.py {B}",t=3000)
    rc,o=sh(e+f"python3 /opt/vp/results.py {W}.json lines:{B}/results/all.lines")
    b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open(f"{W}.json")); os.remove(f"{W}.json")
    want=set(b["stable"] if "stable" in b else b["passed"]); got=set(r["passed"])
    m=want-got
    return "" if not m else f"{len(m)} tests fail: {sorted(m)[:3]}"
def verify(i,notests=False):
    d=os.path.join(S,i)
    fresh()
    try:
        rc0,o0=sh(f"bash {d}/demo.sh",cwd=W,t=400)
        rc,o=sh(f"git -C {W} apply {d}/patch.diff")
        if rc: return print(i,"PATCH DOES NOT APPLY",o)
        rc1,o1=sh(f"bash {d}/demo.sh",cwd=W,t=400)
        good=rc0==0 and rc1 not in(0,2)
        t=tests() if good and not notests else "" if notests else "tests not run"
    finally: sh(f"rm -rf {W}")
    ok=good and not t
    print(i,"OK" if ok else "BAD",f"demo clean={rc0} patched={rc1}",t, "" if ok else (o0+o1)[-600:], flush=True)
def catch(i,al=False):
    d=os.path.join(S,i); m=json.load(open(d+"/meta.json"))
    fresh()
    try:
        rc,o=sh(f"git -C {W} apply {d}/patch.diff")
        if rc: return print(i,"PATCH DOES NOT APPLY",o)
        ids=[m["property"]]
        if al: ids=["C%02d"%k for k in range(1,22)]
        hit=[]
        for p in ids:
            rc,o=sh(f"VERIF_REPO={W} VERIF_SEED={os.environ.get('VERIF_SEED','1')} VERIF_TIER=quick python3 bin/check.py {p} quick",cwd=R)
            if rc==1 and f"VIOLATION property={p} " in o: hit.append(p)
            elif rc!=0: hit.append(f"{p}?rc{rc}")
    finally: sh(f"rm -rf {W}")
    print(i,m["property"],"CAUGHT" if m["property"] in hit else "MISSED",hit,flush=True)
if __name__=="__main__":
    ids=[a for a in sys.argv[2:] if not a.startswith("--")] or sorted(os.listdir(S))
    for i in ids:
        if sys.argv[1]=="verify": verify(i,"--notests" in sys.argv)
        else: catch(i,"--all" in sys.argv)
