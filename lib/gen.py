"""Random configurations and mail."""
import random
from fido import *
from cfg import *
NAMES=[b"All",b"John Doe",b"Sysop",b"Mats Wallin",b"J\xf6rgen \xc5str\xf6m",b"x",b"A"*35,b"Mary-Ann O'Neil",b"\xff\xfe\x80",b"areafix2"]
SUBJ=[b"Hello",b"Re: Hello",b"RE: re: test",b"Re^2: x",b"Re[3]: deep",b"",b"S"*71,b"sm\xf6rg\xe5s",b"file.zip",b"a b c",b"Re:",b"50% off %s %n"]
DATES=[b"03 May 26  12:30:15",b"31 Dec 99  23:59:59",b"01 Jan 00  00:00:00",b"29 Feb 24  08:07:06",b"Mon  1 Jan 86 02:34",b"garbage date"]
def pick(r,*x): return r.choice(x)
class G:
    def __init__(s,r): s.r=r; s.tok=0
    def addr(s,zone=None,point=None):
        r=s.r
        return A(zone or r.choice([1,2,2,2,7]),r.choice([200,201,204,5,1,65535,1000,r.randint(1,65535)]),r.choice([0,1,10,11,100,204,65535,r.randint(1,65000)]),
                 point if point is not None else r.choice([0,0,0,0,1,12,0]))
    # ------------------------------------------------------------ configuration
    def cfg(s,nnodes=None,nareas=None,nakas=None,base=None,switches=(),flags=True,netmail=True,bad=True,pw=True,packer=0.7):
        r=s.r; c=Cfg()
        z0=r.choice([1,2,2,3])
        c.defzone=z0
        n=nakas or r.choice([1,1,2,3]); us=set()
        for i in range(n):
            z=z0 if i==0 or r.random()<.4 else r.choice([1,2,3,7,9])
            while True:
                a=A(z,r.choice([200,204,310,5000]),r.randint(1,300),r.choice([0,0,0,7]) if i else r.choice([0,0,0,0,0,3]))
                if a not in us and all(tuple(a[1:])!=tuple(u[1:]) for u in us): break
            us.add(a); k=Aka(a)
            c.akas.append(k)
        if len(c.akas)>1 and r.random()<.5:
            for i,k in enumerate(c.akas): k.domain=r.choice(["FidoNet","FidoNet","othernet%d"%i,""])
        nn=nnodes or r.randint(2,7)
        while len(c.nodes)<nn:
            k=r.choice(c.akas).addr
            z=r.choice([k.z,k.z,k.z,r.choice([1,2,3,7])])
            net=r.choice([k.n,k.n,200,204,r.randint(1,65000)])
            a=A(z,net,r.choice([0,1,2,r.randint(1,400),r.randint(1,65000)]),r.choice([0,0,0,0,1,2,300]))
            if r.random()<.15: a=A(k.z,k.n,k.f,r.randint(1,9))
            if a in us or any(tuple(a[1:])==tuple(u[1:]) for u in us): continue
            us.add(a)
            f=set()
            if flags:
                for x,p in(("PASSIVE",.1),("TINYSEENBY",.15),("NOSEENBY",.12),("PACKNETMAIL",.2),("AUTOADD",.3),("NONETMAILPASSWORD",.15)):
                    if r.random()<p: f.add(x)
                pr=r.choice(["","","","CRASH","HOLD","DIRECT"])
                if pr: f.add(pr)
            nd=Node(a,packer="PK" if r.random()<packer else "",pw=r.choice(["","SECRET","abc","12345678","PaSs"]) if pw and r.random()<.4 else "",flags=f)
            if flags and r.random()<.1: nd.pktfrom=r.choice(c.akas).addr
            c.nodes.append(nd)
        c.switches=set(switches)
        na=nareas if nareas is not None else r.randint(2,5)
        i=0
        if netmail:
            for k in range(r.choice([1,1,2])):
                b=base or r.choice(["MSG","JAM"])
                ar=Area("NETMAIL%d"%k,c.akas[min(k,len(c.akas)-1)].addr,"NETMAIL",b,"ar/nm%d"%k)
                if r.random()<.3: ar.imports=[s.addr() for _ in range(r.randint(1,3))]
                c.areas.append(ar)
        if bad: c.areas.append(Area("BAD",c.akas[0].addr,"BAD",base or r.choice(["MSG","JAM"]),"ar/bad"))
        tags=["FIDO.TEST","echo_2","R20.GENERAL","A","X"*r.choice([10,40,60]),"Sysop-Chat","8BIT.\xe5","TEST","TEST2"]
        r.shuffle(tags)
        for t in tags[:na]:
            ar=Area(t,r.choice(c.akas).addr,"ECHO",base or r.choice(["MSG","JAM","JAM",None]),"ar/e%d"%i)
            i+=1
            l=r.sample(c.nodes,r.randint(0 if r.random()<.1 else 1,len(c.nodes)))
            ar.exports=[(r.choice(["","","","","!","@","%"]) if flags else "",x.addr) for x in l]
            if r.random()<.2: ar.flags.add("IGNOREDUPES")
            if r.random()<.2: ar.flags.add("IGNORESEENBY")
            if ar.base is None: ar.path=None
            c.areas.append(ar)
        c.routes=[("*","*:*/*.*",c.akas[0].addr)]
        if r.random()<.12: c.mix=r.getrandbits(32)
        if c.akas[0].addr.f%8==3: c.pad=c.akas[0].addr.f*7+nn
        return c
    # ------------------------------------------------------------ text
    def token(s): s.tok+=1; return b"<<t%d>>"%s.tok
    def line(s,n=None):
        r=s.r; n=n if n is not None else r.choice([0,1,5,20,40,60,78,79])
        k=r.random()
        if k<.6: return bytes(r.choice(b"abcdefghij klmno.,;:-/()'\"%") for _ in range(n))
        if k<.8: return bytes(r.choice(range(32,127)) for _ in range(n))
        return bytes(r.choice([c for c in range(2,256) if c not in(10,13)]) for _ in range(n))
    def safe(s,l):
        while l.startswith((b"SEEN-BY:",b"\x01")): l=b"x"+l
        return l
    def body(s,tok,big=False,crlf=None):
        r=s.r
        k=r.random()
        nl=b"\r\n" if (crlf if crlf is not None else r.random()<.1) else b"\r"
        if big or k<.06:
            n=r.choice([9990,9999,10000,10001,10010,20000,20001,30011,65000])
            L=[tok]
            sz=len(tok)+1
            while sz<n:
                m=min(r.choice([10,70,79]),max(0,n-sz-1))
                if r.random()<.01: m=min(r.choice([197,198,199,200,500]),max(0,n-sz-1))
                l=s.safe(s.line(m)); L.append(l); sz+=len(l)+1
            t=b"\r".join(L)+b"\r"
        elif k<.16: t=tok+nl
        elif k<.22:
            t=tok+s.safe(s.line(r.choice([150,180,197,198,199,250,400])))+nl
        else:
            L=[s.safe(s.line()) for _ in range(r.randint(0,12))]; L.insert(r.randint(0,len(L)),tok)
            t=nl.join(L)+nl
        if r.random()<.25: t+=b"--- tear"+nl
        return t
    def kludges(s,msgid=None,reply=None):
        r=s.r; o=[]
        if msgid: o.append(b"\x01MSGID: "+by(msgid)+b"\r")
        if reply: o.append(b"\x01REPLY: "+by(reply)+b"\r")
        if r.random()<.2: o.append(b"\x01PID: GED+LNX 1.1.5\r")
        if r.random()<.15: o.append(b"\x01CHRS: LATIN-1 2\r")
        if r.random()<.1: o.append(b"\x01FLAGS DIR\r")
        if r.random()<.1: o.append(b"\x01FLAGS: DIR XYZ K/S FOO\r")
        if r.random()<.1: o.append(b"\x01XKLUDGE "+bytes(r.choice(b"abc def") for _ in range(r.choice([5,50,98,99,100,101,150])))+b"\r")
        if r.random()<.05: o.append(b"\x01Q\r")
        r.shuffle(o)
        return b"".join(o)
    def manykludges(s):
        """enough control lines to fill a text block or more"""
        r=s.r; n=r.choice([9000,9900,10000,10100,11000,19990,20100]); o=[]; z=0; i=0
        while z<n:
            l=b"\x01XFLD%04d: "%i+bytes(r.choice(b"abc def") for _ in range(r.choice([10,40,60])))+b"\r"; o.append(l); z+=len(l); i+=1
        return b"".join(o)
    def sblines(s,ents,wide=False):
        """seen-by lines another tosser would write"""
        out=[];b=b"SEEN-BY:";net=None
        for n,f in ents:
            w=(b" %d/%d"%(n,f)) if n!=net else b" %d"%f
            if len(b)+len(w)>78: out.append(b+b"\r"); b=b"SEEN-BY:"; w=b" %d/%d"%(n,f)
            net=n; b+=w
        if len(b)>8: out.append(b+b"\r")
        return b"".join(out)
    def pathlines(s,ents):
        out=[];b=b"\x01PATH:";net=None
        for n,f in ents:
            w=(b" %d/%d"%(n,f)) if n!=net else b" %d"%f
            if len(b)+len(w)>78: out.append(b+b"\r"); b=b"\x01PATH:"; w=b" %d/%d"%(n,f)
            net=n; b+=w
        if len(b)>6: out.append(b+b"\r")
        return b"".join(out)
    def name(s): return s.r.choice(NAMES)
    def subj(s): return s.r.choice(SUBJ)
    def date(s): return s.r.choice(DATES)
    def attr(s):
        r=s.r; a=0
        for b in(PVT,CRASH,RECD,SENT,INTRANSIT,ORPHAN,KILLSENT,LOCAL,HOLD,FREQ,RREQ,IRRR,AUDIT,UPDREQ):
            if r.random()<.12: a|=b
        return a
    def msgid(s,frm=None):
        r=s.r; k=r.random()
        if k<.1: return None
        if k<.2: return b"<%x@host.example>"%r.getrandbits(64)
        if k<.25: return bytes(r.choice(b"abcXYZ\xe5\xff@:") for _ in range(r.choice([1,20,78,79])))
        return b"%s %08x"%(by((frm or s.addr()).s3()),r.getrandbits(32))
    def echo(s,c,frm,area,tok=None,msgid=0,sb=None,path=None,nocr=False,extra=b"",big=False):
        """message bytes for a packet; returns (bytes, token)"""
        r=s.r; tok=tok or s.token()
        mid=s.msgid() if msgid==0 else msgid
        o=s.addr(frm.z)
        t=b"AREA:"+by(area)+b"\r"+s.kludges(mid,s.msgid() if r.random()<.3 else None)+extra+(s.manykludges() if r.random()<.005 else b"")+s.body(tok,big)
        if r.random()<.8: t+=b" * Origin: "+s.r.choice([b"A nice BBS",b"x",b"(tm) foo"])+b" ("+r.choice([by(o.s3()),by(o.s3())+b"@fidonet",b"FidoNet "+by(o.s3())])+b")\r"
        if sb is None:
            pool=[(n.addr.n,n.addr.f) for n in c.nodes]+[(k.addr.n,k.addr.f) for k in c.akas]
            sb=sorted(set(r.sample(pool,r.randint(0,min(3,len(pool))))+[(r.randint(1,65535),r.randint(0,65535)) for _ in range(r.choice([0,1,3,10,40]))]))
            if r.random()<.1: r.shuffle(sb)
        if path is None:
            path=[(r.choice([200,204,500,r.randint(1,65535)]),r.randint(1,65535)) for _ in range(r.choice([0,1,1,2,5,15]))]
            if r.random()<.2: path.append((frm.n,frm.f))
            if r.random()<.1:
                k=r.choice(c.akas).addr; path.append((k.n,k.f))
        if nocr and not sb and not path: t=t.rstrip(b"\r\n")
        elif not sb and not path and r.random()<.1: t=t.rstrip(b"\r\n")
        t+=s.sblines(sb)+s.pathlines(path)
        return mkmsg(frm,r.choice(c.akas).addr,s.attr(),s.date(),s.name(),s.name(),s.subj(),t),tok
    def net(s,c,orig,dest,tok=None,attr=None,to=None,subj=None,intl=None,extra=b"",body=None,kl=True,frm=None):
        r=s.r; tok=tok or s.token(); k=b""
        if intl or (intl is None and (orig.z!=dest.z or r.random()<.4)): k+=by("\x01INTL %d:%d/%d %d:%d/%d\r"%(dest[:3]+orig[:3]))
        if orig.p: k+=by("\x01FMPT %d\r"%orig.p)
        if dest.p: k+=by("\x01TOPT %d\r"%dest.p)
        if kl: k+=s.kludges(s.msgid(orig))
        if body is None and r.random()<.02: extra=extra+s.manykludges()
        t=k+extra+(s.body(tok) if body is None else body)
        if r.random()<.1: t=t.rstrip(b"\r\n")
        return mkmsg(orig,dest,s.attr() if attr is None else attr,s.date(),to if to is not None else s.name(),frm if frm is not None else s.name(),subj if subj is not None else s.subj(),t),tok
    def pkt(s,frm,to,msgs,pw=b"",kind=None):
        k=kind or s.r.choice(["2+","2+","2+","2aux"])
        return pkthdr(frm,to,pw,k)+b"".join(msgs)+b"\0\0"
    def pktname(s): return "%08x.pkt"%s.r.getrandbits(32)
    def arcname(s): return "%08x.%s%d"%(s.r.getrandbits(32),s.r.choice(["mo","tu","we","th","fr","sa","su"]),s.r.randint(0,9))
