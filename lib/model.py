"""Reference model of tossing and scanning, written from the documentation: predicts every message
stored, forwarded, routed, set aside or answered.  Independent of the program's data structures."""
import re,time,copy,struct
from fido import *
TRAVEL_NET=PVT|CRASH|ATTACH|HOLD|RREQ|IRRR|AUDIT
EXPORT_MASK=PVT|CRASH|ATTACH|FREQ|RREQ|IRRR|AUDIT|HOLD
NORMAL,HOLDP,DIRECT,CRASHP,ECHO="Normal","Hold","Direct","Crash","Echomail"
def same4(a,b):
    if a.z and b.z and a.z!=b.z: return False
    return tuple(a[1:])==tuple(b[1:])
def cstr(b): return b.split(b"\0")[0]
def ieq(a,b): return by(a).lower()==by(b).lower()
def unexpanded(a):
    """the path of a default area, which is a pattern"""
    return a.kind=="DEFAULT" or "%" in (a.path or "") and not getattr(a,"pat",None)
def pieces(t):
    """received text -> the lines the tosser works on (CR or LF ends a line, at most 198 bytes)"""
    out=[];s=0;i=0
    for i,c in enumerate(t):
        if c in(13,10): out.append(t[s:i+1]); s=i+1
        elif i-s+1==198: out.append(t[s:i+1]); s=i+1
    if s<len(t): out.append(t[s:])
    return out
# ------------------------------------------------------------------ address patterns
def numcmp(pat,num):
    if pat=="": return True
    b=str(num)
    for i,c in enumerate(pat):
        if c=="*": return True
        if i>=len(b): return False
        if c!="?" and c!=b[i]: return False
    return len(b)==len(pat)
def rawpat(s):
    z=n=f=p="*"
    if s=="*": return [z,n,f,p]
    m=re.fullmatch(r"(?:([\d*?]+):)?(?:([\d*?]+)/)?([\d*?]*)(?:\.([\d*?]*))?",s)
    if not m: raise ValueError(s)
    if m[1] is not None and m[2] is None and m[4] is None: return [m[1],m[3],"*","*"]   # z:net
    return [m[1] or "*",m[2] or "*",m[3] or "*","0" if m[4] is None else (m[4])]
class Pat:
    KIND=("ZONE","REGION","NET","HUB","NODE")
    def __init__(s,t,nl=None):
        s.t=t; s.kind="PAT"; r=t
        for k in s.KIND:
            if t.upper().startswith(k+" "): s.kind=k; r=t[len(k)+1:]
        if s.kind=="ZONE": s.p=[r,"","",""]
        else: s.p=rawpat(r)
        s.nl=nl
    def match(s,a):
        z,n,f,p=s.p
        zok=a.z==0 or numcmp(z,a.z)
        if s.kind=="PAT": return zok and numcmp(n,a.n) and numcmp(f,a.f) and numcmp(p,a.p)
        if s.kind=="ZONE": return numcmp(z,a.z)
        if s.kind=="NET": return zok and numcmp(n,a.n)
        if s.kind=="NODE": return zok and numcmp(n,a.n) and numcmp(f,a.f)
        if s.nl is None: return False
        if s.kind=="REGION":
            r=s.nl.region(a); return r is not None and zok and numcmp(n,r)
        if s.kind=="HUB":
            h=s.nl.hub(a); return h is not None and zok and numcmp(n,a.n) and numcmp(f,h)
def pat2d(s,net,node):
    if s=="*": return True
    if "/" in s: n,f=s.split("/")
    else: n,f="*",s
    return numcmp(n,net) and numcmp(f,node)
def destpat(t,dest,nl):
    k=t.upper()
    if k=="ZONE": return A(dest.z,dest.z,0,0)
    if k=="NET": return A(dest.z,dest.n,0,0)
    if k=="NODE": return A(dest.z,dest.n,dest.f,0)
    if k=="REGION":
        r=nl.region(dest) if nl else None
        return A(dest.z,r or dest.n,0,0)
    if k=="HUB":
        h=nl.hub(dest) if nl else None
        return A(dest.z,dest.n,h or 0,0)
    w=lambda x:"*" in x or "?" in x
    return A(*[d if w(p) else int(p or 0) for p,d in zip(rawpat(t),dest)])
# ------------------------------------------------------------------ messages
class MM:
    def __init__(s):
        s.orig=s.dest=s.pktorig=s.pktdest=s.origin=A(0,0,0,0); s.area=b""; s.to=s.frm=s.subj=s.date=b""
        s.msgid=s.reply=b""; s.attr=0; s.cost=0; s.type=None; s.flags=set(); s.text=b""; s.seenby=[]; s.path=[]; s.note=None
    def clone(s):
        c=copy.copy(s); c.flags=set(s.flags); c.seenby=list(s.seenby); c.path=list(s.path); return c
    def addsb(s,net,node):
        net&=0xffff; node&=0xffff
        if (net,node) not in s.sbset():
            s.seenby.append((net,node)); s._sb.add((net,node))
    _sbl=None
    def sbset(s):
        if s._sbl is not s.seenby or len(s._sb)>len(s.seenby): s._sb=set(s.seenby); s._sbl=s.seenby
        return s._sb
def parse4(t,tpl=(0,0,0,0)):
    m=re.fullmatch(rb"(?:(\d*):)?(?:(\d*)/)?(\d*)(?:\.(\d*))?",t)
    if not m: return None
    z,n,f,p=tpl
    g=[None if x is None or x==b"" else int(x)&0xffff for x in m.groups()]
    if m[1] is not None and m[2] is None and m[4] is None:
        return A(g[0] if g[0] is not None else z,g[2] if g[2] is not None else n,f,p)
    return A(*[v if v is not None else d for v,d in zip(g,tpl)])
def atoi(b):
    m=re.match(rb"[ \t\n\v\f\r]*([+-]?\d+)",b); return int(m[1])&0xffff if m else 0
def origin_addr(l):
    i=l.rfind(b"(")
    if i<0: return None
    m=re.search(rb"[0-9\r]",l[i+1:])
    if not m: return None
    r=l[i+1+m.start():]
    e=r.find(b")")
    if e<0: return None
    r=r[:e].split(b"@")[0]
    return parse4(r[:49])
def addline(mm,l):
    if mm.area and l.startswith(b"SEEN-BY:"):
        net=0
        for w in re.split(rb" +",l[9:].split(b"\r")[0]):
            w=w[:59]
            m=re.match(rb"\d*",w); num=int(m[0] or 0); r=w[m.end():]
            if not w: continue
            if r[:1]==b"/": net=num; mm.addsb(net,atoi(r[1:]))
            elif r==b"": mm.addsb(net,num)
        return
    if mm.area and l.startswith(b"\x01PATH:"):
        p=l[7:]
        if p: mm.path.append(striptrail(p[:99]))
        return
    if mm.area and l.startswith(b" * Origin: "):
        a=origin_addr(l)
        if a is not None: mm.origin=A(a.z or mm.pktorig.z,a.n,a.f,a.p)
    elif l[:1]==b"\x01": kludge(mm,l)
    mm.text+=l
def striptrail(b):
    e=len(b)
    while e>0 and b[e-1]<33: e-=1
    return b[:e]
def kludge(mm,l):
    if l.startswith(b"\x01RESCANNED"): mm.flags.add("RESCANNED")
    if l.startswith(b"\x01MSGID:"): mm.msgid=l[8:].split(b"\r")[0][:79]
    if l.startswith(b"\x01REPLY:"): mm.reply=l[8:].split(b"\r")[0][:79]
    if not mm.area:
        if l.startswith(b"\x01FMPT"): mm.orig=A(*mm.orig[:3],atoi(l[6:]))
        if l.startswith(b"\x01TOPT"): mm.dest=A(*mm.dest[:3],atoi(l[6:]))
        if l.startswith(b"\x01INTL"):
            r=l[7:] if l[5:6]==b":" else l[6:]
            w=r.split(b" ")
            d=parse4(w[0].split(b"\r")[0][:59]) if b"\r" not in w[0] else None
            o=parse4(w[1].split(b"\r")[0][:59]) if len(w)>1 else None
            if d is not None: mm.dest=A(d.z,d.n,d.f,mm.dest.p)
            if o is not None: mm.orig=A(o.z,o.n,o.f,mm.orig.p)
def seenby_lines(lst):
    out=[];buf="SEEN-BY:";last=0
    for net,node in lst:
        if net==0 and node==0: continue
        w=" "+("%d/"%net if net!=last else "")+"%d"%node
        last=net
        if len(buf)+len(w)>77:
            out.append(buf); buf="SEEN-BY: %d/%d"%(net,node)
        else: buf+=w
    if len(buf)>8: out.append(buf)
    return b"".join(by(x)+b"\r" for x in out)
def path_last(path):
    """(net,node,point) of the last entry of the last line, or None"""
    if not path: return None
    net=0; last=None
    for w in re.split(rb"[\t ]+",path[-1]):
        if not w: continue
        a=parse4(w[:39])
        if a is None: last=None; continue
        n=a.n or net
        net=n; last=(n,a.f,a.p)
    return last
def addpath(path,a):
    last=path_last(path)
    if last==(a.n,a.f,a.p): return
    pt=".%d"%a.p if a.p else ""
    s=by(("%d"%a.f if last and last[0]==a.n else "%d/%d"%(a.n,a.f))+pt)
    if path and len(s)+len(path[-1])<=70: path[-1]=path[-1]+b" "+s
    else: path.append(by("%d/%d%s"%(a.n,a.f,pt)))
class NoList: pass
class Sim:
    """cfg: cfg.Cfg (modified as the program would modify its configuration)"""
    def __init__(s,cfg,now=0,nl=None,nosec=False):
        s.cfg=cfg; s.now=now; s.nl=nl; s.nosec=nosec
        s.dupes=[]; s.imports=[]; s.out=[]; s.flows=[]; s.badfiles=[]; s.events=[]; s.af=None; s.files=[]; s.moves=[]
        s.nstat={}; s.astat={}
        s.newareas=[]
    # -------------------------------------------------- helpers
    def node(s,a):
        for n in s.cfg.nodes:
            if same4(n.addr,a): return n
    def isaka(s,a): return any(same4(k.addr,a) for k in s.cfg.akas)
    def aka(s,a):
        for k in s.cfg.akas:
            if k.addr==a: return k
    def route(s,a):
        for r in s.cfg.routes:
            if Pat(r[0],s.nl).match(a): return r
    def sw(s,n): return n in s.cfg.switches
    def cnt(s,node,k,v=1):
        d=s.nstat.setdefault(node.addr,{}); d[k]=d.get(k,0)+v
    def acnt(s,tag,k,v=1):
        d=s.astat.setdefault(tag,{}); d[k]=d.get(k,0)+v
    def bad_area(s):
        for a in s.cfg.areas:
            if a.kind=="BAD": return a
    # -------------------------------------------------- toss
    def toss_pkt(s,data):
        """returns None when fully processed, else the reason the packet is set aside"""
        if len(data)<58: return "short header"
        w=lambda o: struct.unpack_from("<H",data,o)[0]
        if w(18)!=2: return "type"
        if w(16)==2:
            o=A(w(46),w(20),w(0),w(50)); d=A(w(48),w(22),w(2),w(52))
        else:
            oz=dz=0
            if w(46): oz,dz=w(46),w(48)
            elif w(34): oz,dz=w(34),w(36)
            on=w(20);op=dp=0
            if data[40]==data[45] and data[41]==data[44]:
                op,dp=w(50),w(52)
                if op and on==0xffff: on=w(38)
            o=A(oz,on,w(0),op); d=A(dz,w(22),w(2),dp)
        if s.sw("CHECKPKTDEST") and not s.nosec and not s.isaka(d): return "destination"
        if o.z==0:
            for n in s.cfg.nodes:
                if same4(n.addr,o): o=A(n.addr.z,*o[1:]); break
        if d.z==0:
            for k in s.cfg.akas:
                if same4(k.addr,d): d=A(k.addr.z,*d[1:]); break
        if o.z==0: o=A(s.cfg.defzone,*o[1:])
        if d.z==0: d=A(s.cfg.defzone,*d[1:])
        n=s.node(o)
        pos=58
        if len(data)-pos<2: return "no message"
        first=True
        while True:
            h=data[pos:pos+14]
            if len(h)<2:
                if first: return "no message"
                # a single zero byte as end marker is accepted, nothing at all is not
                if (h[0] if h else s.prev0)!=0: return "no end marker"
                return None
            t=struct.unpack_from("<H",h)[0]
            if t==0: return None
            if t!=2: return "message type"
            s.prev0=h[0]
            if len(h)<14: return "short message header"
            mm=MM(); on,dn,onet,dnet,attr,cost=struct.unpack_from("<6H",h,2)
            pos+=14; f=[];ok=True
            for mx in(19,35,35,71):
                e=data.find(b"\0",pos)
                if e<0 or e-pos>mx: return "header string"
                f.append(data[pos:e]); pos=e+1
            e=data.find(b"\0",pos)
            mm.date,mm.to,mm.frm,mm.subj=f
            mm.orig=A(o.z,onet,on,0); mm.dest=A(d.z,dnet,dn,0); mm.attr=attr; mm.cost=cost; mm.pktorig=o; mm.pktdest=d
            if s.nosec: mm.flags.add("NOSEC")
            txt=data[pos:e] if e>=0 else data[pos:]
            ps=pieces(txt)
            first=False
            l0=ps[0] if ps else b""
            if l0.startswith(b"AREA:"):
                mm.area=striptrail(l0[5:84].lstrip(b" ")); ps=ps[1:]
            if n and n.pw and not s.nosec and (mm.area or "NONETMAILPASSWORD" not in n.flags):
                if cstr(data[26:34]).lower()!=by(n.pw).lower(): return "password"
            if e<0: return "text"
            for l in ps: addline(mm,l)
            pos=e+1
            if n:
                k="Echomail" if mm.area else "Netmail"
                s.cnt(n,"Got"+k); s.cnt(n,"Got"+k+"Bytes",len(mm.text))
            mm.flags.add("TOSSED")
            s.handle(mm)
    def handle(s,mm):
        (s.echomail if mm.area else s.netmail)(mm)
    def addcr(s,mm):
        if mm.text and mm.text[-1]!=13 and (not mm.area or mm.text[-1]!=10): mm.text+=b"\r"
    # -------------------------------------------------- echomail
    def bad(s,mm,reason):
        a=s.bad_area()
        if a is None: s.events.append(("lost",reason)); return
        if mm.area: p="AREA:%s\rPKTORIG:%s\rPKTDEST:%s\rERROR:%s\r"%(lat(mm.area),mm.pktorig,mm.pktdest,reason)
        else: p="DEST:%s\rORIG:%s\rPKTORIG:%s\rPKTDEST:%s\rERROR:%s\r"%(mm.dest,mm.orig,mm.pktorig,mm.pktdest,reason)
        c=mm.clone(); c.text=by(p)+mm.text
        s.store(c,a); s.acnt(a.tag,"NewTexts")
        s.events.append(("bad",reason))
    def store(s,mm,area):
        if area.base: s.imports.append((area.tag,mm.clone()))
    def find_area(s,tag):
        for a in s.cfg.areas:
            if ieq(a.tag,tag): return a
    def echomail(s,mm):
        mm.type=ECHO
        s.addcr(mm)
        n=s.node(mm.pktorig)
        t=lat(mm.area).upper()
        if t in("BAD","DEFAULT") or t.startswith("DEFAULT_"): return s.bad(mm,"Reserved area name")
        a=s.find_area(mm.area)
        if a is None: a=s.autoadd(mm,n)
        if a.unconf: return s.bad(mm,"Unknown area (auto-added but not confirmed)")
        if a.kind=="NETMAIL": return s.bad(mm,"Node does not receive this area")
        links=[(m,s.node(x)) for m,x in a.exports]
        if "EXPORTED" not in mm.flags and "NOSEC" not in mm.flags:
            l=[m for m,x in links if same4(x.addr,mm.pktorig)]
            if not l: return s.bad(mm,"Node does not receive this area")
            if "!" in l[0]: return s.bad(mm,"Node is not allowed to write in this area")
        aka=s.aka(a.aka)
        if aka.addr.z!=mm.pktorig.z: mm.seenby=[]
        chk=s.sw("CHECKSEENBY") and "IGNORESEENBY" not in a.flags
        seen=set(x.addr for m,x in links if chk and x.addr.z==aka.addr.z and x.addr.p==0 and (x.addr.n,x.addr.f) in mm.sbset())
        for m,x in links:
            if x.addr.p==0 and x.addr.z==aka.addr.z and "PASSIVE" not in x.flags and "@" not in m: mm.addsb(x.addr.n,x.addr.f)
        for r in aka.rem: mm.seenby=[e for e in mm.seenby if not pat2d(r,*e)]
        for r in aka.add:
            q=P(r) if ":" in r else P("1:"+r); mm.addsb(q.n,q.f)
        if aka.addr.p==0: mm.addsb(aka.addr.n,aka.addr.f)
        if aka.addr.p==0 or s.sw("PATH3D"): addpath(mm.path,aka.addr)
        if s.cfg.dupemode!="IGNORE" and "TOSSED" in mm.flags and "IGNOREDUPES" not in a.flags:
            if s.isdupe(mm):
                s.acnt(a.tag,"NewDupes")
                if n: s.cnt(n,"Dupes")
                s.events.append(("dupe",mm.msgid))
                if s.cfg.dupemode=="BAD": s.bad(mm,"Duplicate message")
                return
        mm.seenby.sort()
        if not s.filter(mm): return
        s.acnt(a.tag,"NewTexts")
        if "RESCANNED" not in mm.flags:
            for m,x in links:
                if same4(mm.pktorig,x.addr) or "PASSIVE" in x.flags or "@" in m or x.addr in seen: continue
                s.write_echo(mm,x,aka)
        if "TWIT" in mm.flags: return
        if "EXPORTED" not in mm.flags and a.base:
            if s.sw("STRIPRE"): mm.subj=stripre(mm.subj)
            mm.attr=(mm.attr|SENT)&~LOCAL
            s.store(mm,a)
    def isdupe(s,mm):
        if not mm.msgid: return False
        k=(mm.msgid,mm.area.lower())
        if k in s.dupes: return True
        s.dupes.append(k)
        if len(s.dupes)>s.cfg.dupesize: s.dupes.pop(0)
        return False
    def filter(s,mm):
        return True
    def write_echo(s,mm,x,aka):
        frm=x.pktfrom or aka.addr
        s.cnt(x,"SentEchomail"); s.cnt(x,"SentEchomailBytes",len(mm.text))
        t=b"AREA:"+mm.area+b"\r"+mm.text
        if x.addr.z!=aka.addr.z or "TINYSEENBY" in x.flags:
            l=[]
            for q in(x.addr,aka.addr):
                if q.p==0 and (q.n,q.f) not in l: l.append((q.n,q.f))
            t+=seenby_lines(sorted(l))
        elif "NOSEENBY" not in x.flags: t+=seenby_lines(mm.seenby)
        for p in mm.path:
            if p: t+=b"\x01PATH: "+p+b"\r"
        mm.dest=x.addr; mm.orig=frm
        s.emit(x.addr,frm,ECHO,mm,t)
    def emit(s,dest,frm,typ,mm,text):
        m=Msg(); m.onode,m.onet,m.dnode,m.dnet,m.attr,m.cost=mm.orig.f,mm.orig.n,mm.dest.f,mm.dest.n,mm.attr&0xffff,mm.cost
        m.date,m.to,m.frm,m.subj,m.text=mm.date,mm.to,mm.frm,mm.subj,text
        m.echo=bool(mm.area); m.note=mm.note
        m.auto="AUTOGEN" in mm.flags
        s.out.append((dest,frm,typ,m))
    # -------------------------------------------------- auto-add
    def autoadd(s,mm,n):
        from cfg import Area
        da=None
        if n and n.defgroup:
            for a in s.cfg.areas:
                if a.tag.upper().startswith("DEFAULT_") and n.defgroup in a.tag[8:]: da=a; break
        if da is None: da=s.find_area(b"DEFAULT")
        ak=next((k.addr for k in s.cfg.akas if same4(k.addr,mm.pktdest)),s.cfg.akas[0].addr)
        a=Area(lat(mm.area),ak,base=None)
        if da is not None:
            a.base=da.base; a.path=da.path; a.desc=da.desc; a.keepdays=da.keepdays; a.keepnum=da.keepnum
            a.flags=set(f for f in da.flags if f in("MANDATORY","DEFREADONLY","IGNOREDUPES","IGNORESEENBY"))
            a.exports=list(da.exports)
        a.auto=True
        for l in getattr(s,"arealists",()):
            if n and l[0]==n.addr and l[2] and lat(mm.area).lower() in l[1]:
                a.desc=l[1][lat(mm.area).lower()]
                break
        a.unconf=not(n and "AUTOADD" in n.flags)
        if a.unconf: a.flags=set()
        if n:
            a.group=n.defgroup
            def add(m,x):
                if x not in [y for _,y in a.exports]: a.exports.append((m,x))
            add("%",n.addr)
            if a.group:
                for x in s.cfg.nodes:
                    if x.afinfo and a.group in x.afinfo[3]:
                        add("!" if "DEFREADONLY" in a.flags or a.group in x.afinfo[2] else "",x.addr)
        s.cfg.areas.append(a); s.newareas.append(a)
        return a
    # -------------------------------------------------- netmail
    def netmail(s,mm):
        if mm.dest.z==0: mm.dest=A(mm.pktdest.z,*mm.dest[1:])
        if mm.orig.z==0: mm.orig=A(mm.pktorig.z,*mm.orig[1:])
        s.addcr(mm)
        if not s.filter(mm): return
        me=s.isaka(mm.dest)
        if me and "AUTOGEN" not in mm.flags and any(ieq(x,mm.to) for x in s.cfg.areafixnames):
            s.areafix(mm)
            if not s.sw("IMPORTAREAFIX"): return
        ar=None
        nets=[a for a in s.cfg.areas if a.kind=="NETMAIL"]
        for a in nets:
            if same4(a.aka,mm.dest) or any(same4(i,mm.dest) for i in a.imports): ar=a; break
        if ar is None and (me or s.sw("NOROUTE")) and nets: ar=nets[0]
        if ar is not None:
            if "TWIT" in mm.flags: return
            if s.sw("STRIPRE"): mm.subj=stripre(mm.subj)
            if s.sw("IMPORTEMPTYNETMAIL") or any(l[:1]!=b"\x01" for l in lines_of(mm.text)):
                s.acnt(ar.tag,"NewTexts")
                if ar.base:
                    mm.attr=(mm.attr|SENT)&~LOCAL
                    s.store(mm,ar)
            else: s.events.append(("empty",))
            if mm.attr&RREQ and s.sw("ANSWERRECEIPT") and "AUTOGEN" not in mm.flags: s.receipt(mm)
            return
        mm.attr&=TRAVEL_NET
        if "TOSSED" in mm.flags: mm.attr&=~(CRASH|HOLD)
        typ=NORMAL
        if mm.attr&CRASH: typ=CRASHP
        if mm.attr&HOLD: typ=HOLDP
        if mm.attr&ATTACH and not s.sw("NODIRECTATTACH") and typ==NORMAL: typ=DIRECT
        r=s.route(mm.dest)
        if r is None: return s.bad(mm,"No routing for destination node")
        d4=destpat(r[1],mm.dest,s.nl) if typ==NORMAL else mm.dest
        new=typ
        for pats,ch,to in [(c[0],c[1],c[2]) for c in s.cfg.changes]:
            if Pat(ch,s.nl).match(d4) and (pats=="*" or typ.upper() in [x.upper() for x in re.split("[ ,]+",pats)]): new=to.capitalize()
        typ=new
        if d4.p and typ in(DIRECT,CRASHP): d4=A(*d4[:3],0)
        if s.cfg.loopmode!="IGNORE" and "EXPORTED" not in mm.flags and s.isloop(mm):
            s.events.append(("loop",))
            if s.cfg.loopmode=="LOG+BAD":
                c=mm.clone(); c.text=b"".join(b"@"+l[1:] for l in lines_of(mm.text) if l[:1]==b"\x01"); c.seenby=[];c.path=[]
                s.bad(c,"Possible loopmail")
        hdr=s.sw("BOUNCEHEADERONLY")
        if s.nl is not None and any(Pat(b,s.nl).match(mm.dest) for b in s.cfg.bounces) and not s.nl.exists(A(*mm.dest[:3],0)):
            return s.bounce(mm,"Warning! Your message has been bounced because the node %d:%d/%d doesn't exist in the nodelist."%mm.dest[:3],hdr)
        if s.sw("BOUNCEPOINTS"):
            b=A(*mm.dest[:3],0)
            if any(same4(k.addr,b) for k in s.cfg.akas) and s.node(mm.dest) is None:
                return s.bounce(mm,"Warning! Your message has been bounced because the point %s doesn't exist."%str(mm.dest),hdr)
        if mm.attr&ATTACH:
            if "EXPORTED" not in mm.flags and not any(Pat(b,s.nl).match(mm.dest) for b in s.cfg.fileattach):
                return s.bounce(mm,"Warning! Your message has been bounced because because routing of file-attaches to %s is not allowed."%str(mm.dest),hdr)
            names=[w for w in lat(mm.subj).replace(","," ").replace("\\","/").split(" ") if w and w.split("/")[-1] not in("",".","..")]
            mm.subj=by(" ".join(w.split("/")[-1] for w in names))
            for w in names: s.flows.append((w,d4,typ,"EXPORTED" in mm.flags))
        x=time.gmtime(s.now)
        mm.text+=by("\x01Via %s @%04d%02d%02d.%02d%02d%02d CrashMail II\r"%(P4(r[2]).s3(),x[0],x[1],x[2],x[3],x[4],x[5]))
        n=s.node(d4); frm=P4(r[2])
        if n:
            s.cnt(n,"SentNetmail"); s.cnt(n,"SentNetmailBytes",len(mm.text))
            if "PACKNETMAIL" in n.flags and typ==NORMAL: typ=ECHO
            if n.pktfrom: frm=n.pktfrom
        s.emit(d4,frm,typ,mm,mm.text)
        if mm.attr&AUDIT and s.sw("ANSWERAUDIT") and "TOSSED" in mm.flags: s.audit(mm)
    def isloop(s,mm):
        for l in lines_of(mm.text):
            if l.startswith(b"\x01Via"):
                v=cstr(l[:150])
                if b"CrashMail" in v:
                    for w in re.findall(rb"[0-9:/.]+",v):
                        w=w[:19]
                        if b":" in w and b"/" in w:
                            a=parse4(w)
                            if a is not None and a.z and a.n and s.isaka(a): return True
        return False
    def auto(s,to,subj,attr,r,dest,lines,flag=True):
        m=MM(); m.dest=dest; m.orig=P4(r[2]); m.to=to[:35]; m.frm=by(s.cfg.sysop); m.subj=by(subj); m.attr=attr; m.date=by(fdate(s.now))
        m.flags.add("AUTOGEN"); m.note=subj
        m.text=s.netkludges(m)+lines
        s.events.append(("auto",subj,dest))
        s.handle(m)
    def netkludges(s,m,tid=True):
        t=""
        if m.orig.p: t+="\x01FMPT %d\r"%m.orig.p
        if m.dest.p: t+="\x01TOPT %d\r"%m.dest.p
        if m.orig.z!=m.dest.z or s.sw("FORCEINTL"): t+="\x01INTL %d:%d/%d %d:%d/%d\r"%(m.dest[:3]+m.orig[:3])
        if tid and s.sw("ADDTID"): t+="\x01TID: CrashMail II\r"
        return by(t)
    def bounce(s,mm,reason,hdr):
        if "AUTOGEN" in mm.flags: s.events.append(("nobounce",)); return
        o=mm.origin if mm.area else mm.orig
        r=s.route(o)
        if r is None: s.events.append(("nobounce",)); return
        t=by(reason[:390])+b"\r\r"+(b"This is the header of the message that was bounced:\r\r" if hdr else b"This is the message that was bounced:\r\r")
        if mm.area: t+=b"Area: "+mm.area+b"\rFrom: "+mm.frm+by(" (%s)\r"%str(o))+b"  To: "+mm.to+b"\r"
        else: t+=b"From: "+mm.frm+by(" (%s)\r"%str(o))+b"  To: "+mm.to+by(" (%s)\r"%str(mm.dest))
        t+=b"Subj: "+mm.subj+b"\rDate: "+mm.date+b"\r\r"
        if not hdr: t+=mm.text.replace(b"\x01",b"@")
        s.auto(mm.frm,"Bounced message",PVT,r,o,t)
    def receipt(s,mm):
        r=s.route(mm.orig)
        if r is None: return
        t=b'Your message to '+mm.to+b' dated '+mm.date+b' with the subject "'+mm.subj+b'" has reached its final destination. This message doesn\'t mean that the message has been read, it just tells you that it has arrived at this system.\r\r'
        s.auto(mm.frm,"Receipt",PVT|IRRR,r,mm.orig,t)
    def audit(s,mm):
        r=s.route(mm.orig)
        if r is None: return
        d=destpat(s.route(mm.dest)[1],mm.dest,s.nl)
        t=b'Your message to '+mm.to+b' dated '+mm.date+b' with the subject "'+mm.subj+by('" has just been routed to %s by this system.\r\r'%str(d))
        s.auto(mm.frm,"Audit",PVT,r,mm.orig,t)
    def areafix(s,mm):
        s.events.append(("areafix",mm.orig))
    # -------------------------------------------------- scanning local messages
    def export(s,a,rec,rescan=False):
        """the message record as it leaves a base: MM ready for handling"""
        mm=MM(); mm.area=b"" if a.kind=="NETMAIL" else by(a.tag)
        rs=by("\x01RESCANNED %d:%d/%d.%d\r"%a.aka)
        tid=b"\x01TID: CrashMail II\r" if s.sw("ADDTID") and not rescan else b""
        mm.to,mm.frm,mm.subj=rec.to[:35],rec.frm[:35],rec.subj[:71]; mm.cost=rec.cost
        if a.base=="MSG":
            mm.orig=A(0,rec.onet,rec.onode,0); mm.dest=A(0,rec.dnet,rec.dnode,0); mm.date=rec.date[:19]
            mm.attr=rec.attr&EXPORT_MASK
            ka=False
            for l in pieces(cstr(rec.text))+[b""]:
                if l[:1] not in(b"\x01",b"\n") and not ka:
                    ka=True
                    if tid: addline(mm,tid)
                    if rescan: addline(mm,rs)
                    if not mm.area and (mm.dest.z==0 or mm.orig.z==0):
                        z=a.aka.z; mm.dest=A(z,*mm.dest[1:]); mm.orig=A(z,*mm.orig[1:])
                        if s.sw("FORCEINTL"): addline(mm,by("\x01INTL %d:%d/%d %d:%d/%d\r"%(z,rec.dnet,rec.dnode,z,rec.onet,rec.onode)))
                if l: addline(mm,l)
        else:
            fl=None; fs=None; hd=False
            for i,d in rec.subs:
                if i==0:
                    x=parse4(d.split(b"@")[0][:99]); mm.orig=x if x is not None else mm.orig
                elif i==1:
                    if not hd:
                        hd=True; x=parse4(d.split(b"@")[0][:99]); mm.dest=x if x is not None else mm.dest
                elif i==4: addline(mm,b"\x01MSGID: "+d+b"\r")
                elif i==5: addline(mm,b"\x01REPLY: "+d+b"\r")
                elif i==7: addline(mm,b"\x01PID: "+d+b"\r")
                elif i==2000: addline(mm,b"\x01"+d+b"\r")
                elif i==2001: addline(mm,b"SEEN-BY: "+d+b"\r")
                elif i==2002: addline(mm,b"\x01PATH: "+d+b"\r")
                elif i==2003: fl=b"\x01FLAGS: "+d
                elif i==9 and not fs: fs=d
            at=0
            if fs: at|=ATTACH; mm.subj=fs[:71]
            for n,j in JORDER:
                if rec.attr&j:
                    f=next((f for f,q in JFLAG if q==j),0)
                    if f: at|=f
                    else:
                        if fl is None: fl=b"\x01FLAGS: "+n
                        else: fl+=b" "+n
            for f,j in((INTRANSIT,JT),(ORPHAN,JORPH)):
                if rec.attr&j: at|=f
            if fl is not None: addline(mm,fl+b"\r")
            mm.attr=at&EXPORT_MASK; mm.date=by(fdate(rec.written))
            if not mm.area:
                if mm.orig.z!=mm.dest.z or s.sw("FORCEINTL"): addline(mm,by("\x01INTL %d:%d/%d %d:%d/%d\r"%(mm.dest[:3]+mm.orig[:3])))
                if mm.orig.p: addline(mm,by("\x01FMPT %d\r"%mm.orig.p))
                if mm.dest.p: addline(mm,by("\x01TOPT %d\r"%mm.dest.p))
            if tid: addline(mm,tid)
            if rescan: addline(mm,rs)
            t=cstr(rec.text)
            for l in lines_of(t):
                if mm.area and l.startswith(b" * Origin: ") and len(l)>11:
                    x=origin_addr(l)
                    if x is not None: mm.origin=x
            mm.text+=t
        mm.flags.add("RESCANNED" if rescan else "EXPORTED")
        return mm
    def is_unsent(s,a,rec):
        if a.base=="MSG": return bool(rec.attr&LOCAL) and not rec.attr&SENT
        return bool(rec.attr&JL) and not rec.attr&JSENT and not rec.attr&JDELETED
    def scan(s,area,recs):
        """recs: [(number,record)] of one area before the scan, in order. returns numbers exported"""
        done=[]
        for n,rec in recs:
            if s.is_unsent(area,rec):
                s.handle(s.export(area,rec)); done.append(n)
        return done
    def rescan(s,area,recs,node,mx=0):
        """recs: [(number,record)] of the area, in order; sends to one node. returns how many"""
        k=[]
        if recs:
            hi=max(n for n,_ in recs); lo=min(n for n,_ in recs)
            hi=getattr(area,"hi",None) or hi
            for n,rec in recs:
                if mx and n<=hi-mx: continue
                k.append(rec)
        aka=s.aka(area.aka)
        for rec in k:
            mm=s.export(area,rec,True); s.addcr(mm)
            if aka.addr.p==0: mm.addsb(aka.addr.n,aka.addr.f)
            if node.addr.p==0: mm.addsb(node.addr.n,node.addr.f)
            if aka.addr.p==0 or s.sw("PATH3D"): addpath(mm.path,aka.addr)
            mm.seenby.sort()
            s.write_echo(mm,node,aka)
        return len(k)
def P4(x): return x if isinstance(x,A) else P(x)
def stripre(b):
    while True:
        l=b.lower()
        if l[:3]==b"re:": b=b[3:]
        elif l[:3]==b"re^" and b[4:5]==b":": b=b[5:]
        elif l[:3]==b"re[" and b[4:6]==b"]:": b=b[6:]
        else: return b
        if b[:1]==b" ": b=b[1:]
# ------------------------------------------------------------------ how a stored message must look
def want_msg(mm,cfg):
    """record expected in a *.msg base"""
    m=Msg(); m.frm,m.to,m.subj,m.date=mm.frm,mm.to,mm.subj,mm.date; m.cost=mm.cost; m.attr=mm.attr&0xffff
    t=mm.text
    if mm.area:
        m.orig=m.dest=A(0,0,0,0)
        if "IMPORTSEENBY" in cfg.switches: t+=seenby_lines(mm.seenby)
    else: m.orig,m.dest=mm.orig,mm.dest
    for p in mm.path:
        if p: t+=b"\x01PATH: "+p+b"\r"
    m.text=t
    return m
JFLAG=[(PVT,JP),(HOLD,JHOLD),(CRASH,JCRASH),(KILLSENT,JKILL),(SENT,JSENT),(RECD,JR),(ATTACH,JFATT),(FREQ,JFREQ),(LOCAL,JL),(RREQ,JRRCT),(INTRANSIT,JT),(ORPHAN,JORPH)]
JNAME={"PVT":JP,"HLD":JHOLD,"CRA":JCRASH,"K/S":JKILL,"SNT":JSENT,"RCV":JR,"A/S":JARCS,"DIR":JDIR,"FIL":JFATT,"FRQ":JFREQ,"IMM":JIMM,"KFS":JKFILE,"TFS":JTRUNC,"LOK":JL,"RRQ":JRRCT,"CFM":JCONF,"FPU":JFPU}
JORDER=[(b"PVT",JP),(b"HLD",JHOLD),(b"CRA",JCRASH),(b"K/S",JKILL),(b"SNT",JSENT),(b"RCV",JR),(b"A/S",JARCS),(b"DIR",JDIR),(b"FIL",JFATT),(b"FRQ",JFREQ),(b"IMM",JIMM),(b"KFS",JKFILE),(b"TFS",JTRUNC),(b"LOK",JL),(b"RRQ",JRRCT),(b"CFM",JCONF),(b"FPU",JFPU)]
def jstrip(b):
    b=b.lstrip(b" ")
    return striptrail(b)
def want_jam(mm,cfg,now):
    m=Msg(); m.frm,m.to,m.subj=mm.frm,mm.to,mm.subj; m.cost=mm.cost
    m.attr=0
    for f,j in JFLAG:
        if mm.attr&f: m.attr|=j
    m.attr|=JTECHO if mm.area else JTNET
    m.oaddr=by((mm.origin if mm.area else mm.orig).s3()); m.daddr=None if mm.area else by(mm.dest.s3())
    m.msgid=[];m.reply=[];m.pid=[];m.flags=[];m.kl=[]; t=b""
    for l in lines_of(mm.text):
        l=l.replace(b"\n",b"")
        if l[:1]!=b"\x01": t+=l; continue
        c=l[:-1] if l.endswith(b"\r") else l
        if c.startswith(b"\x01PID:"): m.pid.append(jstrip(c[5:]))
        elif c.startswith(b"\x01MSGID:"): m.msgid.append(jstrip(c[7:]))
        elif c.startswith(b"\x01REPLY:"): m.reply.append(jstrip(c[7:]))
        elif c.startswith(b"\x01FLAGS:"):
            rest=[]
            for w in jstrip(c[7:]).split(b" "):
                if not w: continue
                if lat(w).upper() in JNAME: m.attr|=JNAME[lat(w).upper()]
                else: rest.append(w)
            if rest: m.flags.append(b" ".join(rest))
        elif c[1:5] in(b"INTL",b"TOPT",b"FMPT"): pass
        else: m.kl.append(jstrip(c[1:]))
    m.text=t
    m.files=[]
    if mm.attr&ATTACH: m.files+=[(9,x) for x in re.split(rb"[ ,]+",mm.subj) if x]
    if mm.attr&FREQ: m.files+=[(11,x) for x in re.split(rb"[ ,]+",mm.subj) if x]
    m.sb=[]
    if "IMPORTSEENBY" in cfg.switches: m.sb=[x[9:] for x in seenby_lines(mm.seenby).split(b"\r") if x]
    m.path=list(mm.path)
    m.msgidcrc=jamcrc(mm.msgid); m.replycrc=jamcrc(mm.reply)
    m.written=fido_time(lat(mm.date)); m.processed=now
    return m
def fido_time(s):
    import calendar
    p=parse_fido(s)
    if not p: return None
    try: return calendar.timegm((p[0]+(2000 if p[0]<80 else 1900),p[1]+1,p[2],p[3],p[4],p[5]))
    except Exception: return None
