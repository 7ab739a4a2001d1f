"""Hostile mail: structure-aware corruption of packets, messages, message bases and requests."""
import os,random,struct
from fido import *
from gen import G
def junk(r,n=None):
    n=r.choice([0,1,2,5,20,72,79,80,99,100,101,198,199,200,201,255,300,1000]) if n is None else n
    k=r.random()
    if k<.3: return b"A"*n
    if k<.5: return bytes(r.choice(b"0123456789:/. ") for _ in range(n))
    if k<.7: return bytes(r.choice(b"*?#%\"'\\/.-+=,;:|<>()[]{}!@ \t") for _ in range(n))
    return bytes(r.choice([c for c in range(1,256)]) for _ in range(n))
def num(r): return by(str(r.choice([0,1,-1,9,65535,65536,99999,2147483647,2147483648,4294967295,-2147483649,10**20,10**60,"0x10","",r.randint(0,70000)])))
def addr(r):
    k=r.random()
    if k<.25: return num(r)+b":"+num(r)+b"/"+num(r)+r.choice([b"",b"."+num(r),b"@",b"@"+junk(r),b"."])
    if k<.45: return b"%d:%d/%d.%d"%(r.randint(0,9),r.randint(0,70000),r.randint(0,70000),r.randint(0,300))
    if k<.6: return r.choice([b"",b":",b"/",b".",b"1:",b"1:/",b":/.",b"1:2/",b"*",b"1:*/*",b"?",b"1:2/3@",b"@x",b"1/2/3/4:5:6",b"2:200/207.207.207",b"-1:-1/-1.-1"])
    return junk(r)
def lst(r,skip=1):
    n=r.choice([0,1,3,20,200,2000]); out=[]
    for _ in range(n):
        k=r.random()
        out.append(b"%d/%d"%(r.randint(0,65535),r.randint(0,65535)) if k<.5 else b"%d"%r.randint(0,99999) if k<.8 else b"%d/%d.%d"%(r.randint(0,70000),r.randint(0,70000),r.randint(0,9)) if k<.9 else r.choice([num(r),addr(r),b"/",b"x/",b"/9",b"*/*",b"a/b"]))
    return r.choice([b" ",b" ",b"  ",b"\t",b""])+r.choice([b" ",b" ",b" ",b"\t",b","]).join(out)
def kludge(r):
    k=r.randrange(18)
    if k==0: return b"\x01MSGID:"+r.choice([b"",b" ",b" "+junk(r),b" "+addr(r)+b" "+junk(r),b"x"])
    if k==1: return b"\x01REPLY:"+r.choice([b"",b" ",b" "+junk(r)])
    if k==2: return b"\x01INTL"+r.choice([b"",b" ",b":",b" "+addr(r),b" "+addr(r)+b" "+addr(r),b"\t"+junk(r)])
    if k==3: return b"\x01FMPT"+r.choice([b"",b" ",b" "+num(r),b":"+junk(r)])
    if k==4: return b"\x01TOPT"+r.choice([b"",b" ",b" "+num(r),b":"+junk(r)])
    if k==5: return b"\x01PATH:"+lst(r)
    if k==6: return b"SEEN-BY:"+lst(r)
    if k==7: return b"\x01FLAGS"+r.choice([b"",b" ",b": ",b" "+junk(r),b" DIR KFS TFS LOK XMA ARQ "+junk(r)])
    if k==8: return b"\x01Via"+r.choice([b"",b" "+addr(r)+b" @20260101.000000.UTC",b" "+junk(r)])
    if k==9: return b" * Origin:"+r.choice([b"",b" ",b"(",b" ()",b")",b" x ("+addr(r)+b")",b" x ("+addr(r),junk(r)+b"("+addr(r)+b")"])
    if k==10: return b"AREA:"+r.choice([b"",b" ",junk(r)])
    if k==11: return b"\x01"+junk(r)
    if k==12: return b"\x01PID:"+r.choice([b"",b" "+junk(r)])
    if k==13: return b"\x01CHRS: "+junk(r)
    if k==14: return b"\x01DOMAIN "+junk(r)+b" "+addr(r)
    if k==15: return b"\x01RESCANNED "+addr(r)
    if k==16: return b"SEEN-BY"+r.choice([b"",b":",b": ",b" :",b": 1/2"])
    return r.choice([b"\x01",b"\x01\x01",b"\x01PATH",b"\x01PATH:",b"SEEN-BY:",b"\x01MSGID",b"\x01INTL",b"---",b"--- ",b" * Origin: "])
def rfc(r,area,node,tags):
    """a robot request"""
    L=[]
    for _ in range(r.choice([0,1,3,10,40])):
        t=by(r.choice(tags)) if tags and r.random()<.5 else junk(r)
        L.append(r.choice([b"+",b"-",b"",b"=",b"%",b"+%"])+t+r.choice([b"",b"",b" R=5",b", R="+num(r),b",",b" "+junk(r)]) if r.random()<.6 else
          r.choice([b"%HELP",b"%LIST",b"%QUERY",b"%UNLINKED",b"%LINKED",b"%RESCAN",b"%COMPRESS",b"%COMPRESS "+junk(r),b"%COMPRESS PK",b"%COMPRESS ?",b"%PWD",b"%PWD "+junk(r),b"%RPWD "+junk(r),b"%FULLREPORT",b"%",b"%"+junk(r),b"*",b"+*",b"-*",b"-?",b"+#?",b"---",b"%QUIT",b"%NOTIFY",b"%FEED "+addr(r)+b" "+junk(r),b"%PAUSE",b"%RESUME"]))
    return b"\r".join(L)+r.choice([b"",b"\r",b"\r\n"])
def text(r,g,tags,area=None):
    L=[]
    if area is not None: L.append(b"AREA:"+area)
    for _ in range(r.choice([0,1,4,12,40])): L.append(kludge(r) if r.random()<.6 else junk(r) if r.random()<.5 else g.line())
    if r.random()<.12: L.insert(r.randint(0,len(L)),b"y"*r.choice([9980,9995,10000,10003,20000,60000]))
    for _ in range(r.choice([0,0,1,3])): L.append(kludge(r))
    nl=r.choice([b"\r",b"\r",b"\r",b"\r\n",b"\n"])
    return nl.join(L)+r.choice([b"",nl,nl+nl])
def body_nul(r,t): return t.replace(b"\0",b"\x02")
def message(r,g,c,node):
    if r.random()<.3:
        es=[a.tag for a in c.areas if a.kind=="ECHO"]
        if es and r.random()<.6: return g.echo(c,node.addr,by(r.choice(es)),big=r.random()<.05)[0]
        return g.net(c,node.addr,r.choice(c.nodes).addr if r.random()<.6 else r.choice(c.akas).addr)[0]
    k=r.random(); tags=[a.tag for a in c.areas]; echo=[a.tag for a in c.areas if a.kind in("ECHO","DEFAULT","BAD")]
    own=r.choice(c.akas).addr
    area=None; to=g.name(); dest=own; orig=node.addr; sub=g.subj(); at=r.choice([0,0,r.getrandbits(16),ATTACH|PVT,RREQ,AUDIT,ATTACH|FREQ])
    if k<.45: area=by(r.choice(echo)) if echo and r.random()<.75 else junk(r)
    elif k<.6:
        to=by(r.choice(c.areafixnames)); sub=by(r.choice([node.pw or "x",(node.afinfo or ["pw"])[0],"pw","-l","","x -q -l"])) if r.random()<.8 else junk(r,r.randint(0,71))
    elif k<.8: dest=r.choice(c.nodes).addr
    else: dest=A(r.randint(0,9),r.getrandbits(16),r.getrandbits(16),r.randint(0,3)); orig=A(r.randint(0,9),r.getrandbits(16),r.getrandbits(16),r.randint(0,3))
    if at&ATTACH: sub=r.choice([b"file.zip",b"a b c",b"/etc/passwd",b"../x",junk(r,r.randint(0,71)),b"^x #y"])
    if area is None and to==by(c.areafixnames[0]) and r.random()<.8:
        t=rfc(r,area,node,tags)
        if r.random()<.3: t=kludge(r)+b"\r"+t
    else: t=text(r,g,tags,area)
    if area is None and dest.z!=own.z and r.random()<.6: t=by("\x01INTL %d:%d/%d %d:%d/%d\r"%(dest[:3]+orig[:3]))+t
    f=[g.date(),to,g.name(),sub]
    for i,mx in enumerate((19,35,35,71)):
        if r.random()<.06: f[i]=junk(r,r.choice([0,1,mx-1,mx,mx,mx+1,mx+40,400]))
    z=lambda b:b.replace(b"\0",b"")
    return pktmsg(orig.f,orig.n,dest.f,dest.n,at&0xffff,z(f[0]),z(f[1]),z(f[2]),z(f[3]),body_nul(r,t),mtype=2 if r.random()<.99 else r.getrandbits(16))
def packet(r,g,c):
    node=r.choice(c.nodes)
    ms=[message(r,g,c,node) for _ in range(r.choice([0,1,2,4,8]))]
    kind=r.choice(["2+","2+","2+","2aux","2","2q","2.2","2+q"])
    frm=node.addr if r.random()<.85 else A(r.randint(0,9),r.getrandbits(16),r.getrandbits(16),r.randint(0,9))
    h=pkthdr(frm,r.choice(c.akas).addr,by(node.pw) if r.random()<.9 else junk(r,8),kind,tm=(r.choice([0,1980,2026,65535]),r.randint(0,13),r.randint(0,40),r.randint(0,30),r.randint(0,70),r.randint(0,70)) if r.random()<.2 else (2026,5,3,12,30,15))
    b=h+b"".join(ms)+r.choice([b"\0\0",b"\0\0",b"\0\0",b"",b"\0",b"\0\0junk",b"\1\0"])
    return mutate(r,b)
def mutate(r,b):
    k=r.random()
    if k<.6 or not b: return b
    b=bytearray(b)
    if k<.72: del b[r.randint(0,len(b)-1):]
    elif k<.84:
        for _ in range(r.choice([1,1,3,10])): b[r.randrange(len(b))]=r.choice([0,1,13,10,255,r.getrandbits(8)])
    elif k<.9:
        i=r.randrange(len(b)); j=min(len(b),i+r.choice([1,5,60,500])); b[i:i]=b[i:j]*r.choice([1,3,20])
    elif k<.95:
        i=r.randrange(len(b)); del b[i:i+r.choice([1,2,14,60])]
    else:
        i=r.randrange(len(b)); b[i:i]=bytes(r.getrandbits(8) for _ in range(r.choice([1,4,50])))
    return bytes(b)
def corrupt_file(r,p):
    b=bytearray(open(p,"rb").read())
    k=r.random()
    if not b or k<.05: open(p,"wb").write(bytes(r.getrandbits(8) for _ in range(r.choice([0,1,190,1024,3000])))); return
    if k<.3: del b[r.randint(0,len(b)-1):]
    elif k<.8:
        for _ in range(r.choice([1,2,5,20])):
            i=r.randrange(len(b))
            if r.random()<.5 and len(b)>=i+4: struct.pack_into("<I",b,i//4*4 if i//4*4+4<=len(b) else i,r.choice([0,1,2,0xffffffff,0x7fffffff,0x80000000,len(b),r.getrandbits(32),r.randint(0,3000)]))
            else: b[i]=r.getrandbits(8)
    else:
        i=r.randrange(len(b)); b[i:i]=bytes(r.getrandbits(8) for _ in range(r.choice([1,8,76])))
    open(p,"wb").write(bytes(b))
