"""C11: a crash at any moment of a toss loses no received mail."""
import random
from crash import *
PROP="C11"; LEVEL="exploration"
RULE="a case is a system with stored and waiting mail and new inbound mail, tossed once undisturbed and then again from the saved state with a kill before, or in the middle of, sampled file system changes, followed by unlock and a repeated toss; distinct = distinct (system call, kind of file) crash points x configuration shapes"
ASSUME=["the process is killed; data handed to the kernel survives (no power loss)","a stale configuration lock and busy files of the killed run are removed (UNLOCK command) before the next run","a write of up to 600 bytes is not torn"]
def cases(tier,seed):
    n=500 if tier=="quick" else 2500
    return [{"seed":seed*1000003+i,"pts":14 if tier=="quick" else 60} for i in range(n)]
def kind(p):
    p=re.sub(r"[0-9a-f]{8}","H",p); p=re.sub(r"\d+","N",p); return p
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    t=build_state(r,g,ctx,False); w=t.w; c=t.cfg; sv=w.root.rstrip("/")+".sv"
    pre=State(w,c); save(w,sv)
    x=w.inj("count",0,0,"TOSS"); base_now=w.now
    d=[]
    if not runstate(x,d): select(d,("*",),o); t.close(); return
    n=len(x.changes); ref=None
    w.cm("TOSS"); ref=State(w,c)
    if ref.bad or ref.ob.problems: t.close(); return
    pts=list(range(1,n+1)); r.shuffle(pts)
    for i in sorted(pts[:case["pts"]]):
        mode=r.choice(["kill","kill","tear"]); restore(w,sv); w.now=base_now-2
        y=w.inj(mode,i,0,"TOSS")
        if not y.killed: continue
        o.evals+=1; o.count("crashes"); o.count("crash at "+y.changes[-1][0]); o.key(mode,y.changes[-1][0],kind(y.changes[-1][1]))
        what="killed %s change %d of %d (%s %s)"%("before" if mode=="kill" else "in",i,n,y.changes[-1][0],y.changes[-1][1])
        unlock(w)
        if r.random()<.2:
            z=w.inj(r.choice(["kill","tear"]),r.randint(1,n),0,"TOSS")
            if z.killed: o.count("second crashes"); what+=" and again at %s %s"%z.changes[-1]; unlock(w)
        d=[]
        for k in(0,1):
            q=w.cm("TOSS")
            if not runstate(q,d): break
        for cc,sg,m in d: o.bad(sg,what+": "+m)
        if d: break
        judge(ref,pre,State(w,c),o,what)
        if not o.viol: probe(t,g,c,o,what)
        if o.viol: break
    if case["seed"]%25==1: o.sample={"changes":n,"messages":len(ref.area)+len(ref.out)}
    shutil.rmtree(sv,ignore_errors=True); t.close()
