"""C02: conservation. Every received message ends exactly once in each destination."""
import random
from tossck import *
PROP="C02"; LEVEL="exploration"
RULE="a case counts when at least one message was received and its destinations compared; distinct = distinct (disposition multiset, container kinds, bad-file reasons)"
CATS=("store","out","inbound","run","pkt:left","flav")
SW=["CHECKSEENBY","IMPORTSEENBY","STRIPRE","PATH3D","CHECKPKTDEST","IMPORTEMPTYNETMAIL","NOROUTE","ADDTID","FORCEINTL","WEEKDAYNAMING","FLOWCRLF","NODIRECTATTACH","MSG_HIGHWATER"]
def cases(tier,seed):
    n=4000 if tier=="quick" else 12000
    return [{"seed":seed*1000003+i} for i in range(n)]
def damage(r,d):
    k=r.random()
    if k<.3: return d[:r.randint(0,len(d)-1)]
    if k<.5: return d[:-1]
    if k<.6: return d[:-2]
    if k<.7: return d[:18]+b"\x03"+d[19:]
    if k<.8: return d[:-2]+b"\x05\x00"
    return d[:-2]+mkmsg(A(1,1,1),A(1,1,2),0,"x"*25,"a","b","c","t")+b"\0\0"
def build(r,opts=None):
    g=G(r); c=g.cfg(switches=[x for x in SW if r.random()<.2])
    c.dupemode=r.choice(["IGNORE","BAD","KILL"]); c.loopmode=r.choice(["IGNORE","LOG","LOG+BAD"])
    if r.random()<.3: c.maxpkt=r.choice([300,1000,5000]); 
    if r.random()<.2: c.maxbundle=r.choice([500,3000])
    msgs=[]
    allmids=[]
    for _ in range(r.randint(1,10)):
        n=r.choice(c.nodes).addr if r.random()<.92 else g.addr()
        if r.random()<.7:
            es=[a for a in c.areas if a.kind=="ECHO"]
            a=r.choice(es) if es else None
            if a and a.exports and r.random()<.8: n=r.choice(a.exports)[1]
            tag=(a.tag if a else "NONE")
            if r.random()<.2: tag=by(tag).swapcase().decode("latin1")
            if r.random()<.05: tag=r.choice(c.areas).tag
            if r.random()<.05: tag="UNKNOWN.%d"%r.randint(1,3)
            mid=r.choice(allmids) if allmids and r.random()<.15 else g.msgid()
            allmids.append(mid)
            m,_t=g.echo(c,n,tag.encode("latin1"),msgid=mid,big=r.random()<.03)
        else:
            k=r.random()
            d=r.choice(c.akas).addr if k<.4 else r.choice(c.nodes).addr if k<.7 else g.addr()
            o=n if r.random()<.6 else g.addr()
            m,_t=g.net(c,o,d,attr=g.attr()&~(RREQ|AUDIT|ATTACH))
        msgs.append((n,m))
    return g,c,msgs
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g,c,msgs=build(r)
    files=[]; deliver(g,c,files,msgs)
    for i in range(len(files)):
        if r.random()<.12:
            n,d=files[i]
            if is_arc(n):
                k=r.random()
                if k<.3: files[i]=(n,b"")
                elif k<.6: files[i]=(n,b"????"+d[4:])
                else:
                    mem=arc_unpack(d); mem[0]=(mem[0][0],damage(r,mem[0][1])); files[i]=(n,arc_pack(mem))
            else: files[i]=(n,damage(r,d))
    for _ in range(r.choice([0,0,1,2])):
        files.append((r.choice(["readme.txt","12345678.xyz","old.pkt.bad","abc.pkt","file.zip","0.msg"])+"",b"other file %d"%r.randint(0,9)))
    files=list(dict((f[0],f) for f in files).values())
    t=Toss(ctx,c); t.inbound(files)
    d=[]
    t.run(d,nosec=r.random()<.05)
    select(d,CATS,o)
    s=t.sim
    o.count("messages",len(msgs)); o.count("stored",len(s.imports)); o.count("sent",len(s.out)); o.count("badfiles",len(t.reasons))
    for e in s.events: o.count("event:"+e[0])
    for x in t.reasons: o.count("reason:"+x)
    o.key(sorted((e[0],e[1] if len(e)>1 else "") for e in s.events if e[0]!="dupe"),len(s.imports),len(s.out),sorted(t.reasons))
    if case["seed"]%500==0: o.sample={"seed":case["seed"],"files":[f[0] for f in files],"stored":len(s.imports),"sent":len(s.out),"bad":t.reasons}
    t.close()
