"""C10: scanning exports each locally written message exactly once."""
import random
from tossck import *
import c02
PROP="C10"; LEVEL="exploration"
RULE="a case is a history of local writing, tosses, deletions and scans on one system; distinct = distinct (sequence of operations, bases, options, messages exported per scan)"
CATS=("store","out","old","run","pkt","outhdr","outattr","outnet","outtext","outaddr","hw")
SW=["ADDTID","FORCEINTL","MSG_HIGHWATER","JAM_HIGHWATER","ALLOWKILLSENT","MSG_WRITEBACK","CHECKSEENBY","IMPORTSEENBY","NOEXPORTNETMAIL","NOROUTE","PATH3D","JAM_LINK"]
def cases(tier,seed):
    n=3000 if tier=="quick" else 9000
    return [{"seed":seed*1000003+i} for i in range(n)]
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    c=g.cfg(switches=[x for x in SW if r.random()<.25]); c.dupemode=r.choice(["IGNORE","BAD","KILL"]); c.loopmode=r.choice(["IGNORE","LOG","LOG+BAD"])
    c.jam_maxopen=r.choice([0,0,1,2])
    if r.random()<.3: c.changes=[(r.choice(["*","NORMAL","CRASH,HOLD"]),r.choice(["*:*/*.*","2:*/*.*"]),r.choice(["HOLD","CRASH","DIRECT","NORMAL"]))]
    t=Toss(ctx,c); d=[]; t.files=[]; ops=[]
    loc=[a for a in c.areas if a.kind in("ECHO","NETMAIL") and a.base]
    nexp=0
    for step in range(r.randint(2,6)):
        k=r.random()
        if k<.45 or step==0:
            n=0
            for _ in range(r.randint(1,5)):
                a=r.choice(loc); kw={}
                x=r.random()
                if x<.12: kw["attr"]=0
                elif x<.22: kw["attr"]=LOCAL|SENT
                elif x<.27: kw["attr"]=SENT
                elif x<.4 and a.kind=="NETMAIL": kw["attr"]=LOCAL|KILLSENT|r.choice([0,PVT,CRASH,HOLD])
                if a.kind=="NETMAIL":
                    y=r.random()
                    kw["dest"]=r.choice(c.nodes).addr if y<.5 else g.addr() if y<.8 else r.choice(c.akas).addr
                if a.base=="JAM" and r.random()<.06: kw["deleted"]=True
                t.local(g,a,**kw); n+=1
            ops.append("w")
        elif k<.6:
            msgs=[]
            for _ in range(r.randint(1,4)):
                n=r.choice(c.nodes).addr
                es=[a for a in c.areas if a.kind=="ECHO" and a.exports]
                if es and r.random()<.7:
                    a=r.choice(es); n=r.choice(a.exports)[1]; m,_t=g.echo(c,n,a.tag.encode("latin1"))
                else: m,_t=g.net(c,n,r.choice(c.akas).addr if r.random()<.6 else g.addr(),attr=g.attr()&~(RREQ|AUDIT|ATTACH))
                msgs.append((n,m))
            f=[]; deliver(g,c,f,msgs,bundle=.1); t.inbound(f)
            t.run(d); ops.append("t")
        elif k<.68:
            a=r.choice(loc)
            ms=t.w.area_msgs(a)
            if a.base=="MSG" and len(ms)>1:
                hi=max(m.num for m in ms)
                m=r.choice(ms)
                if m.num!=hi: os.unlink(t.w.root+a.path+"/%d.msg"%m.num); ops.append("d")
            continue
        if r.random()<.75 or k<.05:
            x=r.random()
            if x<.7: t.scan(d); ops.append("s")
            elif x<.8:
                a=r.choice(loc); t.scan(d,[a.tag],["SCANAREA",a.tag]); ops.append("sa")
            else:
                l=r.sample(loc,r.randint(1,len(loc))); p=t.w.root+"list.txt"
                open(p,"w",encoding="latin1").write("".join(a.tag+"\n" for a in l)+("NoSuchArea\n" if r.random()<.3 else "")+(l[0].tag+"\n" if r.random()<.3 else ""))
                # areas are scanned in the order of the list
                order=[a.tag for a in l]
                t.scan(d,order,["SCANLIST",p]); ops.append("sl")
            nexp+=t.exported; o.count("exported",t.exported); ops.append(t.exported)
        if d: break
    if not d:
        t.scan(d); nexp+=t.exported; o.count("exported",t.exported)
        if not d:
            t.scan(d)
    select(d,CATS,o)
    o.count("scans",sum(1 for x in ops if x in("s","sa","sl"))+2); o.count("killed",len(t.gone)); o.count("sent",len(t.sim.out)); o.count("stored",len(t.sim.imports))
    o.key(ops,sorted(c.switches),[a.base for a in c.areas])
    if case["seed"]%400==0: o.sample={"ops":ops,"switches":sorted(c.switches),"exported":nexp}
    t.close()
