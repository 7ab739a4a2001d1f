"""Reference evaluation of message filters, from doc/filter.txt."""
import re,struct
from fido import *
from model import *
MATCHN=[b"John Doe",b"Sysop",b"Mats Wallin",b"J\xf6rgen \xc5str\xf6m",b"x",b"A"*35,b"All",b"john d",b"Doe and Sons",b"Not Me",b"or else",b"T(e)st",b""]
SUBJS=[b"Hello",b"Re: Hello",b"hello world",b"",b"buy now and save",b"S"*71,b"a b c",b"100% free %s",b"(sale)",b"file.zip"]
WORDS=[b"lottery",b"Crash",b"and",b"free or not",b"viagra",b"abcabcabd",b"aab",b"xyz(",b"NOT"]
def pmatch(p,s):
    p,s=by(p).lower(),by(s).lower()
    for i,c in enumerate(p):
        if c==42: return True
        if i>=len(s): return False
        if c!=63 and c!=s[i]: return False
    return len(p)==len(s)
STR={"FROMNAME":lambda s,m:m.frm,"TONAME":lambda s,m:m.to,"SUBJECT":lambda s,m:m.subj,"AREA":lambda s,m:m.area,
 "TYPE":lambda s,m:b"ECHOMAIL" if m.area else b"NETMAIL",
 "SOURCE":lambda s,m:b"TOSSED" if "TOSSED" in m.flags else b"CRASHMAIL" if "AUTOGEN" in m.flags else b"EXPORTED" if "EXPORTED" in m.flags else b"OTHER"}
Z=A(0,0,0,0)
def frm4(m): return m.origin if m.area else m.orig
def to4(m): return Z if m.area else m.dest
def boss(a): return A(*a[:3],0)
def localpoint(s,a): return a.p!=0 and any(k.addr.p==0 and same4(k.addr,boss(a)) for k in s.cfg.akas)
BOOL={"FILEATTACH":lambda s,m:bool(m.attr&ATTACH),"TOLOCALAKA":lambda s,m:s.isaka(to4(m)),"FROMLOCALAKA":lambda s,m:s.isaka(frm4(m)),
 "TOLOCALPOINT":lambda s,m:localpoint(s,to4(m)),"FROMLOCALPOINT":lambda s,m:localpoint(s,frm4(m)),
 "EXISTSCFG_FROMADDR":lambda s,m:s.node(frm4(m)) is not None,"EXISTSCFG_FROMBOSS":lambda s,m:s.node(boss(frm4(m))) is not None,
 "EXISTSCFG_TOADDR":lambda s,m:s.node(to4(m)) is not None,"EXISTSCFG_TOBOSS":lambda s,m:s.node(boss(to4(m))) is not None,
 "EXISTSNL_FROMADDR":lambda s,m:s.nl.exists(frm4(m)),"EXISTSNL_TOADDR":lambda s,m:s.nl.exists(to4(m)),
 "EXISTSNL_FROMBOSS":lambda s,m:s.nl.exists(boss(frm4(m))),"EXISTSNL_TOBOSS":lambda s,m:s.nl.exists(boss(to4(m)))}
def ev(s,e,m):
    """e: ("chain",[(op,not,node)...]) | ("atom",var,op,value)"""
    if e[0]=="atom":
        _,v,op,val=e
        if v in STR:
            x=STR[v](s,m)
            return by(val).lower() in x.lower() if op=="|" else pmatch(val,x)
        if v=="FROMADDR": return Pat(val,s.nl).match(frm4(m))
        if v=="TOADDR": return Pat(val,s.nl).match(to4(m))
        if v in BOOL:
            x=BOOL[v](s,m); return x if op=="" else x==(val.upper()=="TRUE")
        w=by(val).lower()
        return any(w in l.lower() and (l[:1]==b"\x01")==(v=="KLUDGES") for l in lines_of(m.text))
    r=None
    for op,neg,n in e[1]:
        x=ev(s,n,m)
        if neg: x=not x
        r=x if op is None else (r and x) if op=="AND" else (r or x)
    return r
def render(e,r):
    if e[0]=="atom":
        _,v,op,val=e
        v=v if r.random()<.8 else v.lower()
        if op=="": return v
        q=r.random()<.5 or not re.fullmatch(r"[A-Za-z0-9*?:/.]+",val)
        return v+op+('"%s"'%val if q else val)
    o=""
    for op,neg,n in e[1]:
        if op: o+=" "+(op if r.random()<.7 else op.lower())+" "
        t=render(n,r)
        o+=("NOT " if neg else "")+("("+t+")" if n[0]=="chain" else t)
    return o
def scramble(r,b):
    """a pattern of the documented kind made from a value"""
    s=lat(b); k=r.random()
    if k<.35: pass
    elif k<.55: s=s[:r.randint(0,len(s))]+"*"
    elif k<.75 and s:
        i=r.randrange(len(s)); s=s[:i]+"?"+s[i+1:]
    elif k<.85: s=s+"x"
    else: s=s[:-1]
    if r.random()<.3: s="".join(c.upper() if ord(c)<128 else c for c in s)
    return s.replace('"',"?")
def atom(r,pool,nl):
    k=r.random()
    if k<.38:
        v=r.choice(["FROMNAME","TONAME","SUBJECT"])
        b=r.choice(SUBJS if v=="SUBJECT" else MATCHN)
        if r.random()<.6: return ("atom",v,"=",scramble(r,b))
        b=b or b"e"; i=r.randrange(len(b)); return ("atom",v,"|",lat(b[i:i+r.randint(1,6)]))
    if k<.44: return ("atom","AREA",r.choice("=|"),r.choice(["FIDO.TEST","fido*","T","EST","*","?","8BIT.?"]))
    if k<.52: return ("atom","TYPE","=",r.choice(["NETMAIL","ECHOMAIL","netmail"]))
    if k<.62: return ("atom","SOURCE","=",r.choice(["TOSSED","EXPORTED","CRASHMAIL","crash*"]))
    if k<.76:
        a=r.choice(pool); v=r.choice(["FROMADDR","TOADDR"])
        f=r.choice(["%d:%d/%d.%d","%d:%d/%d.*","%d:%d/%d"]) % (a if True else a) if r.random()<.0 else None
        p=r.choice(["%d:%d/%d.%d"%a,"%d:%d/%d.*"%a[:3],"%d:%d/%d"%a[:3],"*:%d/%d.*"%a[1:3],"*:*/%d.?"%a.f if a.f else "*:%d/*.*"%a.n,"%d:%d/*.*"%a[:2] if a.n else "2:5/1"])
        return ("atom",v,"=",p)
    if k<.88:
        v=r.choice([x for x in BOOL if nl or "NL" not in x]); q=r.choice(["","","TRUE","FALSE","true"])
        if "NL" in v: q=""
        return ("atom",v,"=" if q else "",q)
    if k<.94: return ("atom","TEXT","|",lat(r.choice(WORDS)))
    return ("atom","KLUDGES","|",r.choice(["MSGID","pid: ged","INTL","TOPT","lottery","CHRS: latin"]))
def expr(r,pool,nl,d=0):
    n=r.choice([1,1,2,2,3,4]) if d==0 else r.choice([1,2,2,3])
    return ("chain",[(None if i==0 else r.choice(["AND","OR"]),r.random()<.22,expr(r,pool,nl,d+1) if d<3 and r.random()<.28 else atom(r,pool,nl)) for i in range(n)])
SPECIAL=bytes(c for c in range(256) if c<32 or c==127 or c in b"`$\\\"';&|<>(){}")
def shsafe(b): return bytes(95 if c in SPECIAL else c for c in b)
class FSim(Sim):
    """s.flt: [(expr ast, [(command, args...)])]"""
    flt=()
    def filter(s,m):
        for e,cmds in s.flt:
            if not ev(s,e,m): continue
            s.hits=getattr(s,"hits",0)+1
            for c in cmds:
                s.cmd(m,*c); s.cmds=getattr(s,"cmds",{}); s.cmds[c[0]]=s.cmds.get(c[0],0)+1
                if "KILL" in m.flags: return False
        return True
    def expand(s,t,m):
        d={"a":m.area,"f":m.frm,"t":m.to,"s":m.subj,"x":m.date,"o":by(str4(frm4(m))),"d":by(str4(m.dest))}
        return re.sub(rb"%(.)",lambda q:d.get(lat(q[1]),q[1]),by(t))[:399]
    def cmd(s,m,c,*a):
        if c=="KILL": m.flags.add("KILL")
        elif c=="TWIT": m.flags.add("TWIT")
        elif c=="COPY":
            ar=s.find_area(by(a[0])); x=m.clone()
            if m.area: x.text=b"AREA:"+m.area+b"\r"+x.text
            s.store(x,ar); s.acnt(ar.tag,"NewTexts")
        elif c=="WRITELOG": s.wl=getattr(s,"wl",[]); s.wl.append(s.expand(a[0],m))
        elif c=="WRITEBAD": s.bad(m,a[0])
        elif c in("BOUNCEMSG","BOUNCEHEADER"): s.bounce(m,lat(s.expand(a[0],m)),c=="BOUNCEHEADER")
        elif c=="REMAPMSG": s.remap(m,*a)
        elif c=="MASQUERADE": s.masq(m,*a)
        elif c=="EXECUTE":
            s.ex=getattr(s,"ex",[]); rc,codes=a
            s.ex.append((rc,codes,m.clone()))
            if rc==0: m.flags.add("KILL")
    def remap(s,m,name,pat):
        if m.area: return
        old,od=m.to,m.dest
        m.dest=destpat(pat,m.dest,s.nl); m.to=old if name=="*" else by(name)[:35]
        r=s.route(m.dest); my=P4(r[2]) if r else Z
        t=s.netkludges(m,False)
        for l in lines_of(m.text):
            if len(l)>5 and l[:5] in(b"\x01INTL",b"\x01FMPT",b"\x01TOPT"): continue
            t+=l
        m.text=t+b"\x01Remapped to "+m.to+by(" at %s by %s\r"%(full(m.dest),full(my)))+b"\x01Message originally to "+old+by(" at %s\r"%full(od))
    def masq(s,m,name,pat):
        n=destpat(pat,m.orig,s.nl); m.frm=m.frm if name=="*" else by(name)[:35]
        t=b""
        for k in("msgid","reply")[:1 if m.area else 2]:
            v=getattr(m,k)
            if b" " in v:
                v=(by(full(n))+b" "+v.split(b" ",1)[1])[:79]; setattr(m,k,v); t+=b"\x01"+by(k.upper())+b": "+v+b"\r"
        m.orig=n
        if m.area: m.origin=n
        else: t+=s.netkludges(m,False)
        for l in lines_of(m.text):
            if l.startswith(b" * Origin"):
                i=l.rfind(b"("); j=l.find(b")",i)
                if i>0 and j>0: l=l[:i+1]+by(full(n))+l[j:]
            elif l[:6]==b"\x01MSGID" or not m.area and l[:6]==b"\x01REPLY": continue
            if l[:5] in(b"\x01INTL",b"\x01FMPT",b"\x01TOPT") or l[:4]==b"\x01Via": continue
            t+=l
        m.text=t; m.seenby=[]; m.addsb(n.n,n.f); m.path=[]; addpath(m.path,boss(n))
def full(a): return "%d:%d/%d.%d"%a
def str4(a): return a.s3()
def rfc_parse(b):
    h,_,t=b.partition(b"\n\n"); return h.split(b"\n"),t
