"""C03: echomail goes to exactly the subscribed systems that have not seen it."""
import random
from tossck import *
PROP="C03"; LEVEL="exploration"
RULE="a case is a history of tosses and scans of echomail over random link tables; distinct = distinct (link modes and node flags met, copies per message, rescan/unlinked/passthrough dispositions)"
CATS=("out:echo","store:echo","store:bad","run","pkt:left","pkt","outarea")
SW=["CHECKSEENBY","IMPORTSEENBY","PATH3D","NOROUTE"]
def cases(tier,seed):
    n=2500 if tier=="quick" else 12000
    return [{"seed":seed*1000003+i} for i in range(n)]
def cfg(g):
    r=g.r
    c=g.cfg(nnodes=r.choice([3,6,10,20,45]),nareas=r.randint(1,6),switches=[x for x in SW if r.random()<(.6 if x=="CHECKSEENBY" else .15)],pw=False)
    c.dupemode=r.choice(["IGNORE","BAD","KILL"])
    # points of linked systems, and systems that differ only in zone or point
    for n in list(c.nodes):
        if r.random()<.25 and n.addr.p==0:
            a=A(*n.addr[:3],r.randint(1,4))
            if all(tuple(a[1:])!=tuple(x.addr[1:]) for x in c.nodes) and all(tuple(a[1:])!=tuple(k.addr[1:]) for k in c.akas): c.nodes.append(Node(a,packer=n.packer,flags=set(x for x in n.flags if x in("PASSIVE","TINYSEENBY"))))
    for a in c.areas:
        if a.kind=="ECHO":
            have=[x for _,x in a.exports]
            for n in c.nodes:
                if n.addr.p and n.addr not in have and r.random()<.5: a.exports.append((r.choice(["","","!","@"]),n.addr))
            r.shuffle(a.exports)
    return c
from cfg import Node
def mail(g,c,n):
    r=g.r; out=[]
    es=[a for a in c.areas if a.kind=="ECHO"]
    for _ in range(n):
        a=r.choice(es)
        frm=r.choice(a.exports)[1] if a.exports and r.random()<.9 else r.choice(c.nodes).addr if r.random()<.7 else g.addr()
        tag=a.tag if r.random()<.85 else by(a.tag).swapcase().decode("latin1")
        pool=[(x.addr.n,x.addr.f) for x in c.nodes]+[(k.addr.n,k.addr.f) for k in c.akas]
        sb=[]
        k=r.random()
        if k<.3: sb=r.sample(pool,r.randint(0,len(pool)))
        elif k<.5: sb=[(frm.n,frm.f)]
        elif k<.7: sb=[e for e in pool if r.random()<.3]+[(e[0],e[1]+1) for e in pool if r.random()<.3 and e[1]<65535]+[(e[0]+1,e[1]) for e in pool if r.random()<.3 and e[0]<65535]
        elif k<.8: sb=[(r.randint(1,65535),r.randint(0,65535)) for _ in range(r.choice([100,250,600]))]+r.sample(pool,r.randint(0,len(pool)))
        sb=list(dict.fromkeys(sb))
        if r.random()<.7: sb.sort()
        extra=b""
        if r.random()<.07: extra=b"\x01RESCANNED "+by(frm.s3())+b"\r"
        m,_t=g.echo(c,frm,tag.encode("latin1"),sb=sb,extra=extra)
        out.append((frm,m))
    return out
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); c=cfg(g)
    t=Toss(ctx,c); t.files=[]; d=[]; ops=[]
    loc=[a for a in c.areas if a.kind=="ECHO" and a.base]
    for step in range(r.choice([1,1,2,3])):
        if loc and r.random()<.35:
            for _ in range(r.randint(1,4)): t.local(g,r.choice(loc))
            t.scan(d); ops.append("s"); o.count("scans")
        else:
            f=[]; ms=mail(g,c,r.randint(1,8)); o.count("tossed",len(ms)); deliver(g,c,f,ms,bundle=.15); t.inbound(f); t.run(d,nosec=r.random()<.08); ops.append("t")
        if d: break
    select(d,CATS,o)
    s=t.sim
    o.count("copies",len(s.out)); o.count("stored",len(s.imports))
    for e in s.events: o.count("event:"+str(e[:2] if e[0]!="dupe" else "dupe"))
    o.key(ops,sorted((m,"P" if "PASSIVE" in c.node(x).flags else "") for a in c.areas for m,x in a.exports),len(s.out),len(s.imports),sorted(e[0] for e in s.events))
    if case["seed"]%500==3: o.sample={"ops":ops,"copies":len(s.out),"links":sum(len(a.exports) for a in c.areas)}
    t.close()
