"""C12: no mail is lost when a write, packer or unpacker fails."""
import random,errno
from crash import *
from c11 import kind
PROP="C12"; LEVEL="exploration"
RULE="a case is a system with stored and waiting mail and new mail to toss or scan, processed once undisturbed and then again from the saved state with one failing system call, a disk that fills up at a chosen point, or a failing packer or unpacker, followed by a fault-free repetition; distinct = distinct (fault, system call, kind of file)"
ASSUME=["a bundle that the unpacker cannot unpack is set aside under a .bad name with its bytes unchanged","the log file and standard output are not subject to faults"]
def cases(tier,seed):
    n=500 if tier=="quick" else 4000
    return [{"seed":seed*1000003+i,"pts":14 if tier=="quick" else 60} for i in range(n)]
ERR=[errno.ENOSPC,errno.ENOSPC,errno.EIO,errno.EACCES,errno.EDQUOT]
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); scan=r.random()<.35; cmd="SCAN" if scan else "TOSS"
    t=build_state(r,g,ctx,scan); w=t.w; c=t.cfg; sv=w.root.rstrip("/")+".sv"
    pre=State(w,c); save(w,sv)
    x=w.inj("count",0,0,cmd); base_now=w.now
    d=[]
    if not runstate(x,d): select(d,("*",),o); t.close(); return
    n=len(x.changes); w.cm(cmd); ref=State(w,c)
    if ref.bad or ref.ob.problems: t.close(); return
    pts=list(range(1,n+1)); r.shuffle(pts); pts=sorted(pts[:case["pts"]]); pk=[]
    if any(nd.packer for nd in c.nodes): pk=[(lambda k:"%s %d %s"%(k,r.randint(1,3),r.choice(["rc 1","rc 255","sig 9","sigsh 9","sig 11"]+["partial"]*(k=="x"))))(r.choice("ax")) for _ in range(4)]
    for i in pts+pk:
        restore(w,sv); w.now=base_now-2; ff=w.root.rstrip("/")+".pkf"
        if isinstance(i,str):
            open(ff,"w").write(i+"\n")
            y=w.cm(cmd,env={"CMV_PKFAULT":ff})
            k=int(open(ff+".n").read()) if os.path.exists(ff+".n") else 0
            for q in(ff,ff+".n"):
                if os.path.exists(q): os.unlink(q)
            if not k: continue
            o.count("packer faults"); o.key("pk",i); what="packer fault '%s'"%i; keep=i[0]=="x"
        else:
            mode=r.choice(["fail","fail","full","short"]); e=r.choice(ERR) if mode=="fail" else errno.ENOSPC
            y=w.inj(mode,i,e,cmd)
            if not y.failed: o.count("fault did not apply"); continue
            ca,pa=y.failed[0]
            o.count("faults"); o.count("fault at "+ca); o.key(mode,cmd,ca,kind(pa)); keep=False
            what="%s: %s of %s failed (%s, mode %s, %d failures)"%(cmd,ca,pa,errno.errorcode[e],mode,len(y.failed))
        o.evals+=1
        d=[]
        if not runstate(y,d):
            for cc,sg,m in d: o.bad(sg,what+": "+m)
            break
        if not isinstance(i,str) and any(x.endswith(('.busy','.bsy')) for _,x in y.failed): unlock(w)
        mid=State(w,c)
        for k in pre.out:
            if k not in mid.out: o.bad("old:out","%s: message %s that was waiting for %s is gone after the failing run"%(what,lat(k[1]),k[0])); break
        for q in range(2):
            z=w.cm(cmd)
            if not runstate(z,d): break
        for cc,sg,m in d: o.bad(sg,what+", next run: "+m)
        if not d and not o.viol: judge(ref,pre,State(w,c),o,what,keepin=keep)
        if not d and not o.viol: probe(t,g,c,o,what)
        if o.viol: break
    if case["seed"]%25==1: o.sample={"command":cmd,"changes":n,"messages":len(ref.area)+len(ref.out)}
    shutil.rmtree(sv,ignore_errors=True); t.close()
