"""C04: SEEN-BY and PATH lines."""
import random
from tossck import *
from c03 import cfg as cfg3
PROP="C04"; LEVEL="exploration"
RULE="a case is a toss or scan of echomail with random control lines; every forwarded copy's seen-by set, order, abbreviation, line lengths and path are recomputed; distinct = distinct (number of seen-bys, path entries, zones, tiny/no seen-by, add/remove lists)"
CATS=("seenby","path","stsb","stpath","run","outtext","sbfmt","stbody")
ASSUME=["received SEEN-BY and PATH lines are at most 80 characters long, as FTS-4 requires"]
SW=["CHECKSEENBY","IMPORTSEENBY","PATH3D"]
def cases(tier,seed):
    n=4000 if tier=="quick" else 12000
    return [{"seed":seed*1000003+i} for i in range(n)]
def numbers(r):
    return r.choice([lambda:r.randint(1,9),lambda:r.randint(10000,65535),lambda:r.choice([1,10,100,1000,10000,65535,9,99,999,9999]),lambda:r.randint(1,65535)])
def sbset(g,c,n):
    r=g.r; nf=numbers(r); ff=numbers(r)
    nets=[nf() for _ in range(r.choice([1,2,5,max(1,n)]))]
    s=[(r.choice(nets),ff()) for _ in range(n)]
    k=r.random()
    if k<.3: s+=[(x.addr.n,x.addr.f) for x in c.nodes if r.random()<.5]
    if k<.1: s+=[(x.addr.n,x.addr.f) for x in c.akas]
    s=list(dict.fromkeys(s))
    if r.random()<.6: s.sort()
    if r.random()<.1 and s: s+=[r.choice(s) for _ in range(3)]
    return s
def pathset(g,c,frm):
    r=g.r; nf=numbers(r); ff=numbers(r); n=r.choice([0,1,2,3,5,8,13,30,60])
    p=[(nf() if r.random()<.5 else frm.n,ff()) for _ in range(n)]
    if r.random()<.4: p.append((frm.n,frm.f))
    if r.random()<.15: k=r.choice(c.akas).addr; p.append((k.n,k.f))
    if r.random()<.1: k=r.choice(c.akas).addr; p.insert(r.randint(0,len(p)),(k.n,k.f))
    return p
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); c=cfg3(g)
    c.switches=set(x for x in SW if r.random()<.4); c.dupemode="IGNORE"
    for k in c.akas:
        if r.random()<.3: k.add=["%d/%d"%(r.choice([200,204,k.addr.n]),r.randint(0,500)) for _ in range(r.randint(1,4))]
        if r.random()<.3: k.rem=[r.choice(["*/1","200/*","204/1*","%d/*"%k.addr.n,"%d/?"%k.addr.n,"1?/2*","%d/%d"%(r.choice(c.nodes).addr[1:3])]) for _ in range(r.randint(1,3))]
    t=Toss(ctx,c); t.files=[]; d=[]; info=[]
    es=[a for a in c.areas if a.kind=="ECHO" and a.exports]
    loc=[a for a in es if a.base]
    if not es: t.close(); return
    ms=[]
    for _ in range(r.randint(1,5)):
        a=r.choice(es); frm=r.choice(a.exports)[1]
        n=r.choice([0,1,3,10,40,120,300,r.randint(0,80)]); sb=sbset(g,c,n); pa=pathset(g,c,frm)
        m,_t=g.echo(c,frm,by(a.tag),sb=sb,path=pa); ms.append((frm,m)); info.append((len(sb),len(pa),frm.z==a.aka.z))
    f=[]; deliver(g,c,f,ms,bundle=.1); t.inbound(f); t.run(d)
    if loc and not d and r.random()<.4:
        for _ in range(r.randint(1,3)): t.local(g,r.choice(loc))
        t.scan(d); info.append("scan")
    if not any(x[0]=="run" for x in d):
        for k in t.ob.pkts:
            for m in k.msgs:
                if m.text.startswith(b"AREA:"):
                    o.count("copies"); x=sbcheck(m.text,o)
                    if x: d.append(("sbfmt","sbfmt:"+x,"copy for %s: %s\n%s"%(k.dest,x,lat(m.text[-600:]))))
    select(d,CATS,o)
    o.key(info,[sorted(n.flags&{"TINYSEENBY","NOSEENBY"}) for n in c.nodes],[(k.add,k.rem) for k in c.akas])
    if case["seed"]%500==7: o.sample={"messages":info,"copies":len(t.sim.out)}
    t.close()
def sbcheck(text,o):
    """format rules that hold whatever the model says"""
    _,_,sb,pa=split_echo(text)
    prev=None; net=None; tot=0
    for l in sb:
        if len(l)>80: return "line longer than 80 characters"
        net=None
        w=l.rstrip(b"\r").split(b" ")
        if w[0]!=b"SEEN-BY:" or len(w)<2: return "malformed line"
        for x in w[1:]:
            m=re.fullmatch(rb"(?:(\d+)/)?(\d+)",x)
            if not m: return "malformed entry %r"%x
            if m[1]:
                if net==int(m[1]): return "net repeated"
                net=int(m[1])
            if net is None: return "line starts without net"
            e=(net,int(m[2])); tot+=1
            if prev is not None and e<=prev: return "not sorted or repeated: %s after %s"%(e,prev)
            prev=e
    o.count("seenbys",tot)
    for l in pa:
        if not re.fullmatch(rb"\x01PATH:( (\d+/)?\d+(\.\d+)?)+ *\r",l): return "malformed path %r"%l[:60]
        o.count("pathlines")
    return None
