"""C08: message content survives tossing, storing and forwarding unchanged."""
import random
from tossck import *
PROP="C08"; LEVEL="exploration"
RULE="a case sends messages of all lengths and contents through toss, scan and rescan on both base formats and compares every header field and byte stored and forwarded; distinct = distinct (message kind, length class, base, text features, hops) sets"
CATS=("outhdr","outbody","outattr","outtext","outnet","outarea","sthdr","stbody","stkludge","staddr","stattr","stfiles","old:changed","run","store:echo:missing","out:echo:missing","store:net:missing","out:net:missing")
SW=["STRIPRE","IMPORTSEENBY","FORCEINTL","ADDTID","IMPORTEMPTYNETMAIL","MSG_HIGHWATER","JAM_HIGHWATER","PATH3D"]
def cases(tier,seed):
    n=4000 if tier=="quick" else 14000
    return [{"seed":seed*1000003+i} for i in range(n)]
SPEC=[b"\r",b"\r\r\r",b" * Origin: fake (1:2/3)\r",b"--- \r",b"...\r",b"AREA:NOT.REALLY\r",b" SEEN-BY: 1/2\r",b"Seen-by: 204/1\r",b"x\x01MSGID: inner\r",b"@MSGID: faked\r",b"\x8d\r",b"\xff\xfe\xfd\r",b"\t tab\r",b"%s%n%d\r",b"\x1b[31mred\r",b"\x7f\r",b"SEEN-BY\r",b"trailing spaces   \r",b"   leading\r",b"\x08\x07\x0b\x0c\r"]
def text(g,tok,net):
    r=g.r; k=r.random()
    if k<.25: return g.body(tok)
    if k<.5:
        # lengths around the buffer sizes of the program (10000 byte chunks, 198/200 byte lines)
        n=r.choice([197,198,199,200,201,396,397,1000,4095,4096,4097,9998,9999,10000,10001,10002,19999,20000,20001,29999,30000,30001,50000,100003])+r.choice([0,0,0,-len(tok),1,2])
        b=bytearray(tok+b"\r")
        style=r.choice(["lines","lines","one","crs","8bit"])
        while len(b)<n:
            if style=="lines": b+=g.safe(g.line(r.choice([0,30,70,79])))+b"\r"
            elif style=="one": b+=b"w"*min(n-len(b),r.choice([500,3000]))+(b"\r" if r.random()<.2 else b"")
            elif style=="crs": b+=b"\r"
            else: b+=bytes(r.choice(range(128,256)) for _ in range(60))+b"\r"
        b=bytes(b[:n])
        return b if r.random()<.3 else b[:-1]+b"\r"
    if k<.9:
        L=[tok+b"\r"]
        for _ in range(r.randint(1,15)):
            if r.random()<.5: L.append(r.choice(SPEC))
            else: L.append(g.safe(g.line())+b"\r")
        r.shuffle(L)
        b=b"".join(L)
        if not net: b=b.replace(b"\r\x01",b"\rx")
        return b
    return tok+b"\r"+b"\n".join(g.safe(g.line()).replace(b"\r",b"") for _ in range(5))+b"\r"
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    c=g.cfg(nnodes=r.randint(2,4),nareas=r.randint(1,3),switches=[x for x in SW if r.random()<.2],pw=False,base=r.choice([None,"MSG","JAM"])); c.dupemode="IGNORE"; c.loopmode="IGNORE"
    t=Toss(ctx,c); t.files=[]; d=[]; keys=[]
    es=[a for a in c.areas if a.kind=="ECHO" and a.exports]; loc=[a for a in c.areas if a.base and a.kind in("ECHO","NETMAIL")]
    for step in range(r.choice([1,1,2])):
        if r.random()<.7 or not loc:
            ms=[]
            for _ in range(r.randint(1,6)):
                tok=g.token(); net=not es or r.random()<.4
                b=text(g,tok,net)
                if net:
                    n=r.choice(c.nodes).addr; dd=r.choice(c.akas).addr if r.random()<.5 else g.addr()
                    m,_=g.net(c,n if r.random()<.5 else g.addr(),dd,tok=tok,attr=g.attr()&~(RREQ|AUDIT|ATTACH),body=b)
                else:
                    a=r.choice(es); n=r.choice(a.exports)[1]; gb=g.body; g.body=lambda tok,big=False,crlf=None: b
                    try: m,_=g.echo(c,n,by(a.tag),tok=tok)
                    finally: g.body=gb
                ms.append((n,m)); keys.append((net,len(b)//2000,b[-1:]==b"\r")); o.count("bytes",len(b))
            f=[]; deliver(g,c,f,ms,bundle=.2); t.inbound(f); t.run(d); o.count("tossed",len(ms))
        else:
            for _ in range(r.randint(1,4)):
                a=r.choice(loc); tok=g.token(); b=text(g,tok,True)
                if a.base=="MSG": b=b.replace(b"\r\x01",b"\rx")
                t.local(g,a,tok=tok,text=b); keys.append(("l",a.base,len(b)//2000))
            t.scan(d); o.count("scanned",t.exported)
        if d: break
    ea=[a for a in loc if a.kind=="ECHO"]
    if not d and ea and r.random()<.5:
        t.rescan(d,r.choice(ea),r.choice(c.nodes)); o.count("rescanned",t.exported); keys.append(t.exported)
    select(d,CATS,o)
    o.count("stored",len(t.sim.imports)); o.count("copies",len(t.sim.out))
    o.key(keys,[a.base for a in c.areas],sorted(c.switches))
    if case["seed"]%300==5: o.sample={"messages":len(keys),"stored":len(t.sim.imports),"copies":len(t.sim.out)}
    t.close()
