"""C07: netmail is delivered locally or routed by the first matching rule."""
import random
from tossck import *
from cfg import Area
PROP="C07"; LEVEL="exploration"
RULE="a case is a random routing table (routes, changes, imports, akas, points) and a batch of netmail tossed, scanned or both; distinct = distinct (route index chosen, priority, local/routed/bad, zone and point relation) combinations"
CATS=("out:net","store:net","store:bad","outnet","outaddr","staddr","flav","run","inbound","pkt","pkt:left")
def cases(tier,seed):
    n=5000 if tier=="quick" else 16000
    return [{"seed":seed*1000003+i} for i in range(n)]
def num(r,v):
    s=str(v); k=r.random()
    if k<.45: return s
    if k<.6: return "*"
    if k<.75: return s[:r.randint(0,len(s))]+"*"
    if k<.9:
        l=list(s); l[r.randrange(len(l))]="?"; return "".join(l)
    return str(v+r.choice([1,10,100]))
def pat(g,pool):
    r=g.r; a=r.choice(pool); k=r.random()
    if k<.08: return "*"
    if k<.13: return "ZONE %d"%a.z
    if k<.2: return "NET %d:%d"%(a.z,a.n) if r.random()<.5 else "NET %d:%d/*"%(a.z,a.n)
    if k<.27: return "NODE %d:%d/%d"%a[:3]
    if k<.35: return "%d:*/*.*"%a.z
    if k<.45: return "%d:%d/*.*"%a[:2]
    z,n,f=num(r,a.z),num(r,a.n),num(r,a.f)
    p=r.choice(["",".*",".*",".0",".%d"%a.p,".?"])
    return "%s:%s/%s%s"%(z,n,f,p)
def dpat(g,pool):
    r=g.r; k=r.random()
    if k<.12: return "ZONE"
    if k<.25: return "NET"
    if k<.38: return "NODE"
    if k<.55: return "*:*/*.*" if r.random()<.6 else "*:*/*.0"
    a=r.choice(pool)
    if k<.85: return "%d:%d/%d.%d"%a
    return "%s:%s/%s.%s"%(r.choice(["*",str(a.z)]),r.choice(["*",str(a.n)]),r.choice(["*",str(a.f),"0"]),r.choice(["*","0"]))
def table(g,c):
    r=g.r
    pool=[n.addr for n in c.nodes]+[k.addr for k in c.akas]+[g.addr() for _ in range(6)]
    pool+=[A(*r.choice(c.akas).addr[:3],r.randint(1,9)),A(*r.choice(c.nodes).addr[:3],r.randint(1,400))]
    dp=[a for a in pool if not any(k.addr==a for k in c.akas)]
    c.routes=[(pat(g,pool),dpat(g,dp),r.choice(c.akas).addr) for _ in range(r.randint(0,8))]
    if r.random()<.75: c.routes.append(("*:*/*.*" if r.random()<.6 else "*",dpat(g,dp),r.choice(c.akas).addr))
    c.changes=[(r.choice(["*","NORMAL","CRASH","HOLD","DIRECT","CRASH,HOLD","NORMAL,DIRECT"]),pat(g,pool),r.choice(["NORMAL","HOLD","CRASH","DIRECT"])) for _ in range(r.choice([0,1,2,4]))]
    return pool
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    c=g.cfg(nnodes=r.randint(2,8),nareas=1,switches=[x for x in("NOROUTE","FORCEINTL","IMPORTEMPTYNETMAIL","STRIPRE","ADDTID","NODIRECTATTACH","IMPORTSEENBY") if r.random()<.12])
    c.loopmode=r.choice(["IGNORE","LOG","LOG+BAD"])
    pool=table(g,c)
    for a in c.areas:
        if a.kind=="NETMAIL" and r.random()<.4: a.imports=[r.choice(pool) for _ in range(r.randint(1,3))]
    if len(c.akas)>2 and r.random()<.5:
        c.areas.insert(0,Area("NETM.EXTRA",r.choice(c.akas).addr,"NETMAIL",r.choice(["MSG","JAM"]),"ar/nmx"))
    t=Toss(ctx,c); t.files=[]; d=[]; keys=[]
    nets=[a for a in c.areas if a.kind=="NETMAIL"]
    for step in range(r.choice([1,1,2,3])):
        def dest():
            a=r.choice(pool); k=r.random()
            if k<.15: return A(*a[:3],0)
            if k<.25: return A(*a[:3],r.choice([1,2,12,400]))
            if k<.3: return A(a.z%7+1,*a[1:])
            if k<.4: return g.addr()
            return a
        if r.random()<.3:
            for _ in range(r.randint(1,5)):
                a=r.choice(nets); dd=dest()
                t.local(g,a,dest=dd,attr=LOCAL|sum(x for x in(PVT,CRASH,HOLD,FREQ,KILLSENT) if r.random()<.2))
            t.scan(d); o.count("scanned",t.exported)
        else:
            ms=[]
            for _ in range(r.randint(1,8)):
                n=r.choice(c.nodes).addr; og=n if r.random()<.4 else g.addr(); dd=dest()
                ex=b""
                if r.random()<.1: ex=r.choice([b"\x01Via 2:204/1 @20200101.000000 FooTosser\r",b"\x01Via "+by(r.choice(c.akas).addr.s3())+b" @20200101.000000 CrashMail II/Linux\r"])
                m,_=g.net(c,og,dd,attr=g.attr()&~(RREQ|AUDIT|ATTACH),extra=ex,intl=None if r.random()<.6 else True)
                ms.append((n,m))
            f=[]; deliver(g,c,f,ms,bundle=.1); t.inbound(f); t.run(d); o.count("tossed",len(ms))
        if d: break
    select(d,CATS,o)
    for x in t.sim.out:
        m=x[3]; ri=[i for i,q in enumerate(c.routes) if model.Pat(q[0]).match(A(0,m.dnet,m.dnode,0))][:1]
        o.count("to:"+x[2]); keys.append((x[2],ri,bool(x[0].p)))
    for e in t.sim.events: o.count("event:"+e[0])
    for tag,_ in t.sim.imports: o.count("stored:"+c.area(tag).kind)
    o.key(sorted(keys),len(t.sim.imports),len(c.routes),sorted(c.switches))
    if case["seed"]%300==1: o.sample={"routes":[q[:2] for q in c.routes],"changes":c.changes,"sent":[(str(x[0]),x[2]) for x in t.sim.out]}
    t.close()
