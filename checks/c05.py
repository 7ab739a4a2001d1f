"""C05: unauthorised mail is never accepted."""
import random
from tossck import *
from cfg import Node
PROP="C05"; LEVEL="exploration"
RULE="a case tosses packets with right, wrong, missing and nearly right credentials; each message's place is compared with what its credentials allow; distinct = distinct (credential kind, link mode, destination, disposition) combinations"
CATS=("store","out","inbound","run","pkt:left")
def cases(tier,seed):
    n=5000 if tier=="quick" else 12000
    return [{"seed":seed*1000003+i} for i in range(n)]
def badpw(r,pw):
    pw=by(pw)
    return r.choice([b"",pw.swapcase(),pw.lower(),pw[:-1],pw+b"x",pw+b" ",b" "+pw,pw[::-1],b"WRONG",pw[:1],b"\0"+pw,pw+b"\0zz",bytes(c^1 for c in pw)])
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    c=g.cfg(switches=[x for x in("CHECKPKTDEST","CHECKSEENBY","NOROUTE") if r.random()<.4]); c.dupemode=r.choice(["IGNORE","BAD"])
    for n in c.nodes:
        n.pw=r.choice(["","SECRET","abc","12345678","PaSs","x","a b"]) if r.random()<.7 else ""
        if r.random()<.3: n.flags.add("NONETMAILPASSWORD")
    for a in c.areas:
        if a.kind=="ECHO" and r.random()<.12: a.unconf=True
    # points, and the same node in another zone, as strangers or with their own rights
    for n in list(c.nodes):
        if r.random()<.2 and n.addr.p==0 and not any(x.addr==A(*n.addr[:3],5) for x in c.nodes) and not any(tuple(k.addr[1:])==(n.addr.n,n.addr.f,5) for k in c.akas): c.nodes.append(Node(A(*n.addr[:3],5),packer="PK",pw=r.choice(["","POINTPW"])))
    t=Toss(ctx,c); t.files=[]; d=[]; keys=[]
    for step in range(r.choice([1,1,2])):
        files=[]
        for _ in range(r.randint(1,5)):
            es=[a for a in c.areas if a.kind=="ECHO"]; a=r.choice(es)
            k=r.random()
            frm=r.choice(a.exports)[1] if a.exports and k<.6 else r.choice(c.nodes).addr if k<.8 else g.addr()
            z=r.random()
            if z<.06: frm=A(frm.z%7+1,*frm[1:])
            elif z<.12: frm=A(*frm[:3],frm.p+1)
            elif z<.15: frm=A(0,*frm[1:])
            n=t.sim.node(frm)
            pw=by(n.pw) if n else b""
            kind="right"
            if r.random()<.5: pw=badpw(r,pw) if pw else r.choice([b"",b"ANY"]); kind="other"
            msgs=[]
            for _ in range(r.randint(1,4)):
                if r.random()<.65:
                    tag=a.tag if r.random()<.6 else r.choice(c.areas).tag
                    m,_t=g.echo(c,frm,by(tag))
                else: m,_t=g.net(c,frm if r.random()<.6 else g.addr(),r.choice(c.akas).addr if r.random()<.6 else g.addr(),attr=g.attr()&~(RREQ|AUDIT|ATTACH))
                msgs.append(m)
            to=r.choice(c.akas).addr
            y=r.random()
            if y<.12: to=g.addr()
            elif y<.18: to=A(*to[:3],to.p+1)
            elif y<.22: to=A(0,*to[1:])
            elif y<.26: to=A(to.z+1,*to[1:])
            p=g.pkt(frm,to,msgs,pw[:8],kind=None if r.random()<.75 else r.choice(["2","2q","2+q","2.2","2aux"]))
            if r.random()<.2: files.append((g.arcname(),arc_pack([(g.pktname(),p)])))
            else: files.append((g.pktname(),p))
            keys.append((kind,bool(n and n.pw),[m for m,x in a.exports if x==frm],a.unconf,any(k.addr==to for k in c.akas),len(msgs)))
        t.inbound(files)
        ns=r.random()<.12
        t.run(d,nosec=ns); keys.append(ns)
        if d: break
    select(d,CATS,o)
    for e in t.sim.events:
        if e[0]=="bad": o.count("bad:"+e[1])
    for x in t.reasons: o.count("aside:"+x)
    o.count("stored",len(t.sim.imports)); o.count("sent",len(t.sim.out))
    o.key(keys,sorted(c.switches),sorted(t.reasons))
    if case["seed"]%500==9: o.sample={"packets":len(keys),"aside":t.reasons,"bad":[e[1] for e in t.sim.events if e[0]=="bad"]}
    t.close()
