"""C22: a rescan sends exactly the stored messages to exactly the asking system."""
import random
from tossck import *
PROP="C22"; LEVEL="exploration"
RULE="a case fills message bases by tosses and local writing, rescans areas to one system at a time with various maxima, scans afterwards; distinct = distinct (base type, messages stored, maximum, gaps, link mode, flags) combinations"
CATS=("*",)
SW=["ADDTID","MSG_HIGHWATER","JAM_HIGHWATER","MSG_WRITEBACK","CHECKSEENBY","IMPORTSEENBY","PATH3D","STRIPRE","FORCEINTL"]
def cases(tier,seed):
    n=4000 if tier=="quick" else 12000
    return [{"seed":seed*1000003+i} for i in range(n)]
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    c=g.cfg(nnodes=r.randint(2,6),nareas=r.randint(1,4),switches=[x for x in SW if r.random()<.25],pw=r.random()<.4); c.dupemode=r.choice(["IGNORE","KILL","BAD"])
    t=Toss(ctx,c); d=[]; t.files=[]; ops=[]
    loc=[a for a in c.areas if a.kind=="ECHO" and a.base]
    if not loc: t.close(); return
    for step in range(r.randint(1,3)):
        if r.random()<.6:
            ms=[]
            for _ in range(r.randint(1,12)):
                a=r.choice(loc)
                if not a.exports: continue
                n=r.choice(a.exports)[1]; m,_t=g.echo(c,n,by(a.tag),nocr=r.random()<.2); ms.append((n,m))
            if ms:
                f=[]; deliver(g,c,f,ms,bundle=.1); t.inbound(f); t.run(d); ops.append(("t",len(ms)))
        else:
            for _ in range(r.randint(1,6)): t.local(g,r.choice(loc),attr=r.choice([LOCAL,LOCAL,LOCAL|SENT,0,SENT|RECD]),deleted=r.random()<.1)
            ops.append("w")
            if r.random()<.5: t.scan(d); ops.append("s")
        if d: break
        a=r.choice(loc)
        if a.base=="MSG" and r.random()<.3:
            ms=t.w.area_msgs(a)
            if len(ms)>2:
                m=r.choice(ms[:-1]); os.unlink(t.w.root+a.path+"/%d.msg"%m.num); ops.append("d")
    for step in range(r.randint(1,3)):
        if d: break
        a=r.choice(loc); node=r.choice(c.nodes); mx=r.choice([0,0,0,1,2,3,5,100])
        tag=a.tag if r.random()<.7 else by(a.tag).swapcase().decode("latin1")
        t.rescan(d,a,node,mx,["RESCAN",tag,"RESCANNODE",str(node.addr) if r.random()<.5 or node.addr.p else node.addr.s3()]+(["RESCANMAX",mx] if mx else []))
        o.count("rescans"); o.count("rescanned",t.exported); o.count("rescanned:"+a.base,t.exported); ops.append(("r",a.base,t.exported,mx,sorted(node.flags)))
        if not d and r.random()<.4: t.scan(d); ops.append("s")
    # refusals: nothing may change
    if not d:
        ref=[["RESCAN","NO.SUCH.AREA","RESCANNODE",str(c.nodes[0].addr)],["RESCAN",loc[0].tag,"RESCANNODE","9:999/9"],["RESCAN",loc[0].tag,"RESCANNODE","junk"],["RESCAN",loc[0].tag]]
        for a in c.areas:
            if a.kind!="ECHO" or not a.base: ref.append(["RESCAN",a.tag,"RESCANNODE",str(c.nodes[0].addr)])
        for cmd in r.sample(ref,2):
            t.snap(); x=t.w.cm(*cmd); o.count("refused")
            if runstate(x,d): t.compare(d)
    select(d,CATS,o)
    o.key(ops)
    if case["seed"]%200==1: o.sample={"ops":ops,"switches":sorted(c.switches)}
    t.close()
