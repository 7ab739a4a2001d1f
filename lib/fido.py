"""Independent readers/writers for the file formats (packets, *.msg, JAM, flow files, stats, dupes)."""
import os,struct,re,zlib,glob
class A(tuple):
    """4D address"""
    __slots__=()
    def __new__(c,z,n,f,p=0): return tuple.__new__(c,(z,n,f,p))
    z=property(lambda s:s[0]); n=property(lambda s:s[1]); f=property(lambda s:s[2]); p=property(lambda s:s[3])
    def __str__(s): return "%d:%d/%d.%d"%tuple(s)
    def __deepcopy__(s,m): return s
    def s3(s): return "%d:%d/%d"%tuple(s[:3]) if s.p==0 else str(s)
    __repr__=__str__
def P(s):
    m=re.fullmatch(r"(\d+):(\d+)/(\d+)(?:\.(\d+))?",s); return A(int(m[1]),int(m[2]),int(m[3]),int(m[4] or 0))
PVT,CRASH,RECD,SENT,ATTACH,INTRANSIT,ORPHAN,KILLSENT,LOCAL,HOLD=1,2,4,8,16,32,64,128,256,512
FREQ,RREQ,IRRR,AUDIT,UPDREQ=2048,4096,8192,16384,32768
MON=["Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec"]
def lat(b): return b.decode("latin1")
def by(s): return s if isinstance(s,bytes) else s.encode("latin1")
class FormatError(Exception): pass
# ---------------------------------------------------------------- packets
def pkthdr(orig,dest,pw=b"",kind="2+",tm=(2026,5,3,12,30,15),baud=0):
    h=bytearray(58)
    def w(o,v): struct.pack_into("<H",h,o,v&0xffff)
    w(0,orig.f); w(2,dest.f)
    for i,v in enumerate((tm[0],tm[1]-1,tm[2],tm[3],tm[4],tm[5])): w(4+2*i,v)
    w(16,baud); w(18,2); w(20,orig.n); w(22,dest.n)
    h[24]=0xfe
    h[26:34]=by(pw)[:8].ljust(8,b"\0")
    if kind in("2+","2+q"):
        w(34,orig.z); w(36,dest.z)
        w(40,0x0100); w(44,0x0001)
        w(46,orig.z); w(48,dest.z); w(50,orig.p); w(52,dest.p)
        if kind=="2+q": w(46,0); w(48,0)
    elif kind=="2aux":
        w(34,orig.z); w(36,dest.z); w(40,0x0100); w(44,1); w(46,orig.z); w(48,dest.z); w(50,orig.p); w(52,dest.p)
        if orig.p: w(38,orig.n); w(20,0xffff)
    elif kind=="2":      # stone age: no zones
        pass
    elif kind=="2q":
        w(34,orig.z); w(36,dest.z)
    elif kind=="2.2":   # FSC-0045
        for o in range(4,16,2): w(o,0)
        w(4,orig.p); w(6,dest.p); w(16,2); w(34,orig.z); w(36,dest.z)
    return bytes(h)
def pktmsg(onode,onet,dnode,dnet,attr,date,to,frm,subj,text,cost=0,mtype=2):
    return (struct.pack("<HHHHHHH",mtype,onode,dnode,onet,dnet,attr,cost)+by(date)+b"\0"+by(to)+b"\0"+by(frm)+b"\0"+by(subj)+b"\0"+by(text)+b"\0")
def mkmsg(orig,dest,attr,date,to,frm,subj,text):
    return pktmsg(orig.f,orig.n,dest.f,dest.n,attr,date,to,frm,subj,text)
class Pkt: pass
class Msg:
    def __repr__(s): return "Msg(%s)"%({k:v for k,v in s.__dict__.items() if k!="text"},)
def parse_pkt(b,strict=True):
    """strict parse of a type 2+ packet; raises FormatError"""
    if len(b)<60: raise FormatError("packet too short (%d)"%len(b))
    w=lambda o: struct.unpack_from("<H",b,o)[0]
    if w(18)!=2: raise FormatError("packet type %d"%w(18))
    k=Pkt(); k.hdr=b[:58]
    k.orig=A(w(46),w(20),w(0),w(50)); k.dest=A(w(48),w(22),w(2),w(52))
    k.qz=(w(34),w(36)); k.aux=w(38); k.cw=w(44); k.cwv=w(40)
    k.pw=b[26:34]; k.tm=tuple(w(4+2*i) for i in range(6)); k.baud=w(16)
    k.msgs=[]; o=58
    while True:
        if o+2>len(b): raise FormatError("packet ends without terminator")
        t=w(o)
        if t==0:
            if o+2!=len(b): raise FormatError("data after packet terminator (%d bytes)"%(len(b)-o-2))
            break
        if t!=2: raise FormatError("message type %d at %d"%(t,o))
        if o+14>len(b): raise FormatError("short message header")
        m=Msg(); m.onode,m.dnode,m.onet,m.dnet,m.attr,m.cost=struct.unpack_from("<HHHHHH",b,o+2)
        p=o+14; f=[]
        for mx in (20,36,36,72,None):
            e=b.find(b"\0",p)
            if e<0: raise FormatError("unterminated message string")
            s=b[p:e]
            if mx and len(s)>=mx: raise FormatError("overlong header string")
            f.append(s); p=e+1
        m.date,m.to,m.frm,m.subj,m.text=f
        m.size=p-o; m.raw=b[o:p]
        k.msgs.append(m); o=p
    return k
# ---------------------------------------------------------------- message text
def lines_of(t):
    """text -> list of lines incl. terminating CR"""
    out=[];s=0
    for i in range(len(t)):
        if t[i]==13: out.append(t[s:i+1]); s=i+1
    if s<len(t): out.append(t[s:])
    return out
def split_echo(text):
    """received/sent echomail text -> (area, body-bytes, seenby-lines, path-lines)"""
    area=None; body=[];sb=[];pa=[]
    for i,l in enumerate(lines_of(text)):
        if i==0 and l.startswith(b"AREA:"):
            area=lat(l[5:].rstrip(b"\r")).lstrip(" ")
            continue
        if l.startswith(b"SEEN-BY:"): sb.append(l); continue
        if l.startswith(b"\x01PATH:"): pa.append(l); continue
        body.append(l)
    return area,b"".join(body),sb,pa
def parse2d(lines,skip):
    """SEEN-BY/PATH lines -> list of (net,node)"""
    out=[];
    net=0
    for l in lines:
        for w in lat(l[skip:]).split():
            m=re.fullmatch(r"(?:(\d+)/)?(\d+)(?:\.(\d+))?",w)
            if not m: out.append(("?",w)); continue
            if m[1]: net=int(m[1])
            out.append((net,int(m[2])) if m[3] is None else (net,int(m[2]),int(m[3])))
    return out
# ---------------------------------------------------------------- own archive
def arc_pack(files):
    o=b"CMPK"
    for n,d in files: o+=struct.pack("<H",len(n))+by(n)+struct.pack("<I",len(d))+d
    return o
def arc_unpack(b):
    if b[:4]!=b"CMPK": raise FormatError("not an archive")
    o=4; out=[]
    while o<len(b):
        if o+2>len(b): raise FormatError("archive")
        l=struct.unpack_from("<H",b,o)[0]; n=lat(b[o+2:o+2+l]); o+=2+l
        z=struct.unpack_from("<I",b,o)[0]; d=b[o+4:o+4+z]; o+=4+z
        if len(d)!=z: raise FormatError("archive")
        out.append((n,d))
    return out
# ---------------------------------------------------------------- *.msg
def read_msgfile(path):
    b=open(path,"rb").read()
    if len(b)<190: raise FormatError("short msg file "+path)
    m=Msg(); z=lambda x: x.split(b"\0")[0]
    m.frm=z(b[0:36]); m.to=z(b[36:72]); m.subj=z(b[72:144]); m.date=z(b[144:164])
    (m.timesread,m.dnode,m.onode,m.cost,m.onet,m.dnet)=struct.unpack_from("<6H",b,164)
    m.dz,m.oz,m.dp,m.op=struct.unpack_from("<4H",b,176)
    m.replyto,m.attr,m.nextreply=struct.unpack_from("<3H",b,184)
    m.text=z(b[190:]); m.rawtext=b[190:]; m.raw=b
    return m
def read_msgbase(d):
    """-> {num: Msg}"""
    out={}
    if not os.path.isdir(d): return out
    for n in os.listdir(d):
        m=re.fullmatch(r"(\d+)\.[mM][sS][gG]",n)
        if m:
            x=read_msgfile(os.path.join(d,n)); x.num=int(m[1]); out[x.num]=x
    return out
def write_msgfile(path,frm,to,subj,date,orig,dest,attr,text,replyto=0,nextreply=0,zones=False):
    h=by(frm).ljust(36,b"\0")+by(to).ljust(36,b"\0")+by(subj).ljust(72,b"\0")+by(date).ljust(20,b"\0")
    h+=struct.pack("<6H",0,dest.f,orig.f,0,orig.n,dest.n)
    h+=struct.pack("<4H",*( (dest.z,orig.z,dest.p,orig.p) if zones else (0,0,0,0)))
    h+=struct.pack("<3H",replyto,attr,nextreply)
    assert len(h)==190
    with open(path,"wb") as f: f.write(h+by(text)+b"\0")
# ---------------------------------------------------------------- JAM
def jamcrc(b):
    return (~zlib.crc32(bytes(c+32 if 65<=c<=90 else c for c in b)))&0xffffffff
JSUB=dict(OADDR=0,DADDR=1,SNAME=2,RNAME=3,MSGID=4,REPLYID=5,SUBJ=6,PID=7,TRACE=8,FTSKLUDGE=2000,SEENBY=2001,PATH=2002,FLAGS=2003,TZUTC=2004,
   ENCFILE=9,ENCFWALIAS=10,ENCFREQ=11,ENCFWILD=12,ENCINDFILE=13,EMBINDAT=1000)
JL,JT,JP,JR,JSENT,JKILL,JARCS,JHOLD,JCRASH,JIMM,JDIR,JGATE,JFREQ,JFATT,JTRUNC,JKFILE,JRRCT,JCONF,JORPH,JENC,JCOMP,JESC,JFPU,JTLOCAL,JTECHO,JTNET=[1<<i for i in range(26)]
JNODISP=1<<29; JLOCKED=1<<30; JDELETED=1<<31
class Jam: pass
def read_jam(base,strict=True):
    """parse a JAM base; j.problems lists every structural violation"""
    j=Jam(); j.problems=[]; pr=j.problems.append
    rd=lambda e: open(base+e,"rb").read()
    hr,dx,dt=rd(".jhr"),rd(".jdx"),rd(".jdt")
    j.jlr=rd(".jlr") if os.path.exists(base+".jlr") else None
    j.hr,j.dx,j.dt=hr,dx,dt
    if len(hr)<1024 or hr[:4]!=b"JAM\0": pr("bad base header"); j.msgs={}; j.base=1; j.active=0; return j
    j.created,j.modcounter,j.active,j.pwcrc,j.base=struct.unpack_from("<5I",hr,4)
    if len(dx)%8: pr("index size not multiple of 8")
    j.msgs={}; nact=0; hdrs=[]
    for i in range(len(dx)//8):
        crc,off=struct.unpack_from("<II",dx,i*8); num=j.base+i
        if off==0xffffffff:
            if crc!=0xffffffff: pr("msg %d: no header but index crc %08x"%(num,crc))
            continue
        if off<1024 or off+76>len(hr): pr("msg %d: header offset %d outside header file"%(num,off)); continue
        if hr[off:off+4]!=b"JAM\0": pr("msg %d: no header signature at %d"%(num,off)); continue
        m=Msg(); m.num=num; m.idxcrc=crc; m.off=off
        m.rev,_,m.sublen,m.timesread,m.msgidcrc,m.replycrc,m.replyto,m.reply1st,m.replynext=struct.unpack_from("<HHIIIIIII",hr,off+4)
        m.written,m.received,m.processed,m.msgnum,m.attr,m.attr2,m.toff,m.tlen,m.pwcrc,m.cost=struct.unpack_from("<10I",hr,off+36)
        m.hdr=hr[off:off+76+m.sublen]
        if off+76+m.sublen>len(hr): pr("msg %d: subfields reach beyond header file"%num); continue
        hdrs.append((off,off+76+m.sublen,num))
        o=off+76; e=o+m.sublen; m.subs=[]
        while o<e:
            if o+8>e: pr("msg %d: truncated subfield header"%num); break
            lo,hi,l=struct.unpack_from("<HHI",hr,o)
            if o+8+l>e: pr("msg %d: subfield %d overruns"%(num,lo)); break
            if hi!=0: pr("msg %d: subfield hi id %d"%(num,hi))
            m.subs.append((lo,hr[o+8:o+8+l])); o+=8+l
        g=lambda k,m=m: [d for i,d in m.subs if i==JSUB[k]]
        m.g=g
        m.frm=(g("SNAME") or [b""])[0]; m.to=(g("RNAME") or [b""])[0]; m.subj=(g("SUBJ") or [b""])[0]
        if m.msgnum!=num: pr("msg %d: header says number %d"%(num,m.msgnum))
        deleted=bool(m.attr&JDELETED)
        m.deleted=deleted
        if not deleted:
            if m.toff+m.tlen>len(dt): pr("msg %d: text %d+%d beyond text file %d"%(num,m.toff,m.tlen,len(dt)))
            want=jamcrc(m.to)
            if crc!=want: pr("msg %d: index crc %08x, recipient crc %08x"%(num,crc,want))
            nact+=1
        m.text=dt[m.toff:m.toff+m.tlen]
        j.msgs[num]=m
    hdrs.sort()
    for (a,b,n),(c,d,k) in zip(hdrs,hdrs[1:]):
        if c<b: pr("headers of messages %d and %d overlap"%(n,k))
    ext=sorted((m.toff,m.toff+m.tlen,m.num) for m in j.msgs.values() if not m.deleted and m.tlen)
    for (a,b,n),(c,d,k) in zip(ext,ext[1:]):
        if c<b: pr("texts of messages %d and %d overlap"%(n,k))
    if j.active!=nact: pr("active message count %d, but %d messages"%(j.active,nact))
    j.nact=nact
    return j
def jam_new(base,basenum=1,t=1700000000):
    h=b"JAM\0"+struct.pack("<5I",t,0,0,0xffffffff,basenum); h=h.ljust(1024,b"\0")
    open(base+".jhr","wb").write(h)
    for e in(".jdx",".jdt",".jlr"): open(base+e,"wb").close()
def jam_add(base,frm,to,subj,text,attr=0,written=1700000000,oaddr=None,daddr=None,msgid=None,reply=None,extra=(),deleted=False,pid=None):
    """append a message the way another program would. returns number"""
    hr=bytearray(open(base+".jhr","rb").read()); dx=open(base+".jdx","rb").read(); dt=open(base+".jdt","rb").read()
    created,mod,act,pw,bn=struct.unpack_from("<5I",hr,4)
    num=bn+len(dx)//8
    subs=[]
    if oaddr: subs.append((0,by(oaddr)))
    if daddr: subs.append((1,by(daddr)))
    subs+= [(2,by(frm)),(3,by(to)),(6,by(subj))]
    if msgid: subs.append((4,by(msgid)))
    if reply: subs.append((5,by(reply)))
    if pid: subs.append((7,by(pid)))
    subs+=[(i,by(d)) for i,d in extra]
    sb=b"".join(struct.pack("<HHI",i,0,len(d))+d for i,d in subs)
    if deleted: attr|=JDELETED
    text=by(text)
    h=b"JAM\0"+struct.pack("<HHIIIIIII",1,0,len(sb),0,jamcrc(by(msgid)) if msgid else 0xffffffff,jamcrc(by(reply)) if reply else 0xffffffff,0,0,0)
    h+=struct.pack("<10I",written,0,written,num,attr,0,len(dt),len(text),0xffffffff,0)
    assert len(h)==76
    off=len(hr); hr+=h+sb
    if not deleted: act+=1
    struct.pack_into("<5I",hr,4,created,mod+1,act,pw,bn)
    open(base+".jhr","wb").write(hr)
    open(base+".jdx","ab").write(struct.pack("<II",0xffffffff if deleted else jamcrc(by(to)),off))
    open(base+".jdt","ab").write(text)
    return num
# ---------------------------------------------------------------- dates
def parse_fido(s):
    """'03 May 26  12:30:15' -> tuple or None"""
    m=re.fullmatch(r"(\d\d) (\w\w\w) (\d\d)  (\d\d):(\d\d):(\d\d)",s)
    if not m: return None
    return (int(m[3]),MON.index(m[2]),int(m[1]),int(m[4]),int(m[5]),int(m[6]))
def fdate(t):
    import time
    x=time.gmtime(t)
    return "%02d %s %02d  %02d:%02d:%02d"%(x.tm_mday,MON[x.tm_mon-1],x.tm_year%100,x.tm_hour,x.tm_min,x.tm_sec)
# ---------------------------------------------------------------- outbound
FLAV={"o":"N","h":"H","d":"D","c":"C"}
def read_tree(root):
    """{relpath: bytes} of every regular file (dirs: relpath+'/' -> None)"""
    out={}
    for r,d,f in os.walk(root):
        for n in d: out[os.path.relpath(os.path.join(r,n),root)+"/"]=None
        for n in f:
            p=os.path.join(r,n)
            try: out[os.path.relpath(p,root)]=open(p,"rb").read() if not os.path.islink(p) else b"LINK:"+os.readlink(p).encode()
            except OSError: out[os.path.relpath(p,root)]=b"?"
    return out
