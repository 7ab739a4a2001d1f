"""C06: duplicate detection drops every repeat it can remember and nothing else."""
import random,zlib
from tossck import *
PROP="C06"; LEVEL="exploration"
RULE="a case is a history of tosses delivering new, repeated and nearly repeated identifiers with a small duplicate file that wraps around, is resized or removed between runs; distinct = distinct sequences of (identifier kind, area, verdict)"
CATS=("store","out:echo","run","inbound","dupefile","pkt:left")
def cases(tier,seed):
    n=2500 if tier=="quick" else 14000
    return [{"seed":seed*1000003+i} for i in range(n)]
_col=None
def collisions():
    """pairs of different identifiers of one length with the same CRC-32"""
    global _col
    if _col is None:
        r=random.Random(7); d={}; _col=[]
        for _ in range(330000):
            m=b"2:204/%d %08x"%(r.randint(100,999),r.getrandbits(32)); k=zlib.crc32(m)
            if k in d and d[k]!=m: _col.append((d[k],m))
            else: d[k]=m
    return _col
def near(r,m):
    k=r.random()
    if k<.2: return m[:-1] or b"q"
    if k<.4: return m+b"x" if len(m)<79 else m[:-1]+b"~"
    if k<.5: return m.swapcase()
    if k<.6: return m[1:] or b"z"
    i=r.randrange(len(m)); return m[:i]+bytes([33+(m[i]-33+1)%90])+m[i+1:]
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    c=g.cfg(nnodes=r.choice([2,3,5]),nareas=r.randint(1,4),switches=[x for x in("CHECKSEENBY",) if r.random()<.3],pw=False)
    c.dupemode=r.choice(["KILL","KILL","BAD","BAD","IGNORE"]); c.dupesize=r.choice([1,2,3,5,8,20,50,100])
    es=[a for a in c.areas if a.kind=="ECHO" and a.exports]
    if not es: return
    # areas whose tags are prefixes of one another or differ in case only partly
    t=Toss(ctx,c); t.files=[]; d=[]; pool=[]; keys=[]
    for step in range(r.choice([1,2,3,3,5])):
        ms=[]; per=[]; ns=r.random()<.08
        for _ in range(r.choice([1,3,6,12,25])):
            a=r.choice(es); x=r.choice(a.exports)[1]; tag=by(a.tag)
            if r.random()<.2: tag=tag.swapcase()
            k=r.random(); kind="new"; sb=[]
            if k<.35 and pool:
                m,a2=r.choice(pool[-max(1,r.choice([1,c.dupesize,c.dupesize+1,999])):]); kind="rep"
                if r.random()<.75:
                    a=a2; x=r.choice(a.exports)[1]; tag=by(a.tag) if r.random()<.7 else by(a.tag).swapcase()
                else: kind="otherarea"
            elif k<.5 and pool: m=near(r,r.choice(pool)[0]); kind="near"
            elif k<.55: m,m2=r.choice(collisions()); pool.append((m2,a)); kind="crc"
            elif k<.62: m=None; kind="none"
            elif k<.66: m=bytes(r.choice(b"aB@:/ \xe5\xff\x80")for _ in range(r.choice([1,40,78,79]))).strip() or b"v"; kind="odd"
            else: m=b"%s %08x"%(by(g.addr().s3()),r.getrandbits(32))
            if m is not None and (m.strip()!=m or not m): m=b"id"+m.strip()+b"!"; m=m[:79]
            if m is not None: pool.append((m,a))
            if r.random()<.06: x=r.choice(c.nodes).addr   # perhaps not linked: must not count as seen
            if ns and r.random()<.5: x=g.addr()   # unknown systems are accepted when security is off
            b,_=g.echo(c,x,tag,msgid=m,sb=sb)
            ms.append((x,b)); per.append((kind,a.tag,"IGNOREDUPES" in a.flags))
        # a smaller file size only takes effect when the file is written again
        full=t.sim.dupes; view=full[-c.dupesize:]; t.sim.dupes=list(view)
        f=[]; deliver(g,c,f,ms,bundle=.15); t.inbound(f); ne=len(t.sim.events)
        t.run(d,nosec=ns)
        if t.sim.dupes==view: t.sim.dupes=full
        nd=sum(1 for e in t.sim.events[ne:] if e[0]=="dupe"); o.count("dupes",nd); o.count("messages",len(ms))
        for k in per: o.count("kind:"+k[0])
        keys.append((per,nd))
        if c.dupemode!="IGNORE":
            p=t.w.root+c.dupefile
            if not os.path.exists(p): d.append(("dupefile","dupefile:missing","the duplicate file is missing after a run"))
            elif os.path.exists(p+".tmp"): d.append(("dupefile","dupefile:tmp","temporary duplicate file left behind"))
        if d: break
        y=r.random()
        if y<.12:
            c.dupesize=r.choice([1,2,5,30]); t.w.write_cfg(); o.count("resized")
        elif y<.16 and c.dupemode!="IGNORE":
            if os.path.exists(t.w.root+c.dupefile): os.unlink(t.w.root+c.dupefile)
            t.sim.dupes=[]; o.count("removed")
        elif y<.24:
            c.dupemode=r.choice(["KILL","BAD","IGNORE"]); t.w.write_cfg()
    select(d,CATS,o)
    o.key(keys,c.dupemode,c.dupesize)
    if case["seed"]%300==11: o.sample={"dupesize":c.dupesize,"mode":c.dupemode,"history":[(len(p),n) for p,n in keys]}
    t.close()
