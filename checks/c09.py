"""C09: JAM message bases stay structurally valid and correctly linked."""
import random
from tossck import *
PROP="C09"; LEVEL="exploration"
RULE="a case is a history of tosses, foreign writing, scans, rescans and maintenance runs on JAM bases; after every run the whole base is parsed and its links walked; distinct = distinct (operation sequence, reply graph shape, options)"
CATS=("jam","jamcrc","link","old","run","store:echo","store:net","stbody","stkludge","sthdr","staddr")
SW=["JAM_HIGHWATER","IMPORTSEENBY","STRIPRE","ADDTID"]
def cases(tier,seed):
    n=3000 if tier=="quick" else 12000
    return [{"seed":seed*1000003+i} for i in range(n)]
def links(j,new,quick,relaxed,d,tag):
    ms={n:m for n,m in j.msgs.items() if not m.deleted}
    b=lambda s,t: d.append(("link","link:"+s,"%s: %s"%(tag,t)))
    ident=lambda m:(m.g("MSGID") or [None])[0]
    rep=lambda m:(m.g("REPLYID") or [None])[0]
    def ans(m,t):
        """m answers t"""
        if quick: return m.replycrc!=0xffffffff and m.replycrc==t.msgidcrc
        return rep(m) is not None and rep(m)==ident(t)
    ch={}
    for n,m in ms.items():
        if m.replyto:
            if m.replyto==n: b("self","message %d is linked as a reply to itself"%n); continue
            t=ms.get(m.replyto)
            if t is None:
                if not relaxed: b("dangling","message %d is linked to %d which does not exist"%(n,m.replyto))
                continue
            ch.setdefault(m.replyto,set()).add(n)
            if not ans(m,t) and not getattr(m,"foreign",False): b("wrong","message %d (reply %r) is linked to %d (%r)"%(n,rep(m),m.replyto,ident(t)))
    byid={}
    for n,m in ms.items():
        k=m.msgidcrc if quick else ident(m)
        if k is not None and k!=0xffffffff: byid.setdefault(k,[]).append(n)
    for n,m in ms.items():
        k=m.replycrc if quick else rep(m)
        if k is None or k==0xffffffff: continue
        c=[x for x in byid.get(k,[]) if x!=n]
        if m.replyto==0 and c and (n in new or any(x in new for x in c)): b("missing","message %d answers %s but is not linked"%(n,c))
    total=0
    for n,m in ms.items():
        seen=[];k=m.reply1st
        while k and k in ms:
            if k in seen: b("cycle","replies of message %d are linked in a circle: %s"%(n,seen)); break
            seen.append(k); k=ms[k].replynext
        if k and k not in ms and not relaxed: b("dangling","reply chain of message %d reaches %d which does not exist"%(n,k))
        want=ch.get(n,set())
        if not relaxed and set(seen)!=want: b("chain","message %d has replies %s but its chain lists %s"%(n,sorted(want),seen))
        if relaxed and not set(seen)<=want: b("chain","message %d: chain lists %s, replies are %s"%(n,seen,sorted(want)))
        total+=len(seen)
    return total
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    sw=[x for x in SW if r.random()<.25]
    link=r.random()<.8; quick=link and r.random()<.25
    if link: sw.append("JAM_LINK")
    if quick: sw.append("JAM_QUICKLINK")
    c=g.cfg(nnodes=r.randint(2,3),nareas=r.randint(1,3),switches=sw,pw=False,base="JAM"); c.dupemode=r.choice(["IGNORE","KILL","BAD"]); c.jam_maxopen=r.choice([0,1,2])
    for a in c.areas:
        if r.random()<.3: a.keepnum=r.choice([1,3,10])
        if r.random()<.15: a.keepdays=r.choice([1,30])
    t=Toss(ctx,c); t.files=[]; d=[]; ops=[]; pool=[]; relaxed=False; edges=0
    es=[a for a in c.areas if a.kind=="ECHO" and a.exports]; loc=[a for a in c.areas if a.kind in("ECHO","NETMAIL")]
    mod={}
    def nid():
        k=r.random()
        if k<.08: return None
        if k<.14 and pool:
            x=r.choice(pool); return r.choice([x,x.swapcase(),x+b"x",x[:-1] or b"q"])   # same or nearly the same identifier
        x=b"%s %08x"%(by(g.addr().s3()),r.getrandbits(32)); return x
    def rid(own):
        k=r.random()
        if k<.35 or not pool: return None
        if k<.4 and own: return own
        if k<.9: return r.choice(pool[-r.choice([2,5,50]):])
        if k<.95: return r.choice(pool).swapcase()
        return b"2:999/999 %08x"%r.getrandbits(32)
    def ident_fix(b): return b
    for step in range(r.randint(2,5)):
        k=r.random(); before={a.tag:(t.w.jam(a)) for a in c.areas}
        ran="x"
        if k<.55 or step==0:
            ms=[]
            for _ in range(r.choice([1,4,10])):
                m_=nid(); rp=rid(m_)
                ex=(b"\x01REPLY: "+rp+b"\r") if rp else b""
                gk=g.kludges; g.kludges=lambda a=None,b=None,gk=gk: gk(a,None)
                try:
                    if es and r.random()<.8:
                        a=r.choice(es); n=r.choice(a.exports)[1]; m,_=g.echo(c,n,by(a.tag),msgid=m_,extra=ex)
                    else:
                        n=r.choice(c.nodes).addr; gm=g.msgid; g.msgid=lambda f=None: m_
                        try: m,_=g.net(c,n,r.choice(c.akas).addr,attr=0,extra=ex)
                        finally: g.msgid=gm
                finally: g.kludges=gk
                if m_: pool.append(m_)
                ms.append((n,m))
            f=[]; deliver(g,c,f,ms,bundle=.1); t.inbound(f); t.run(d); ran="t"
        elif k<.75:
            for _ in range(r.randint(1,5)):
                a=r.choice(loc); m_=nid(); rp=rid(m_); gm=g.msgid; q=[m_,rp]
                dl=r.random()<.15
                if dl: q=[None,None]
                g.msgid=lambda f=None: q.pop(0) if q else None
                try: t.local(g,a,attr=r.choice([LOCAL,SENT,LOCAL|SENT]),deleted=dl,orig=a.aka,text=g.body(g.token(),crlf=False))
                finally: g.msgid=gm
                if m_ and not dl: pool.append(m_)
            before={a.tag:(t.w.jam(a)) for a in c.areas}
            t.scan(d); ran="s"
        elif k<.85 and es:
            t.rescan(d,r.choice(es),r.choice(c.nodes),r.choice([0,1])); ran="r"
        else:
            before=None
            x=t.w.run("crashmaint",*r.choice([["MAINT"],["PACK"],["MAINT","PACK"]]),"SETTINGS",t.w.root+"cm.prefs"); relaxed=True; ran="m"
            runstate(x,d)
            if x.rc!=0: d.append(("run","run:maint","crashmaint returned %d: %s"%(x.rc,x.text[-300:])))
            for f in os.listdir(t.w.root+"ar"):
                if ".cmtemp" in f: d.append(("jam","jam:temp","temporary base left behind: "+f))
        ops.append(ran)
        for a in c.areas:
            j=t.w.jam(a)
            if j is None: continue
            for p in j.problems: d.append(("jam","jam:"+re.sub(r"[0-9a-f]{8}|\d+","N",p)[:60],"%s: %s"%(a.tag,p)))
            o.count("bases"); o.count("messages",j.nact)
            if before:
                b=before[a.tag]
                if b is not None:
                    if (b.dx,b.dt,b.hr[1024:])!=(j.dx,j.dt,j.hr[1024:]) and j.modcounter==b.modcounter: d.append(("jam","jam:modcounter","%s: base changed but the modification counter is still %d"%(a.tag,j.modcounter)))
                    if j.base!=b.base or j.created!=b.created: d.append(("jam","jam:base","%s: base number or creation date changed"%a.tag))
                    if j.jlr!=b.jlr: d.append(("jam","jam:lastread","%s: lastread file changed"%a.tag))
                new=set(j.msgs)-set(b.msgs if b else ())
            else: new=set()
            if ran=="t":
                for n in new:
                    for x in j.msgs[n].g("SEENBY"):
                        o.count("seen-by fields")
                        if not re.fullmatch(rb"\d+/\d+( (\d+/)?\d+)*",x): d.append(("jam","jam:seenby","%s: message %d has a SEEN-BY field %r"%(a.tag,n,x[:60])))
            if link:
                e=links(j,new if ran=="t" else set(),quick,relaxed,d,a.tag); edges+=e; o.count("links",e)
            elif any(m.replyto or m.reply1st or m.replynext for m in j.msgs.values()): d.append(("link","link:off","%s: linked although linking is off"%a.tag))
        if d: break
    select(d,CATS,o)
    o.key(ops,edges,sorted(c.switches),c.jam_maxopen)
    if case["seed"]%200==1: o.sample={"ops":ops,"links":edges,"switches":sorted(c.switches)}
    t.close()
