"""Independent reader of the configuration file: gives the meaning of every statement."""
import re
from fido import A
class CfgError(Exception): pass
def word(s,pos,mx=1000):
    """next word at pos: (word or None, new position)"""
    n=len(s)
    while pos<n and s[pos] in " \t": pos+=1
    q=pos<n and s[pos]=='"'
    if q: pos+=1
    o=""
    stop='"' if q else " \t"
    while pos<n and s[pos] not in stop and s[pos]!="\n":
        if s[pos]=="\\" and pos+1<n and s[pos+1]!="\n": pos+=1
        if len(o)<mx-1: o+=s[pos]
        pos+=1
    if pos<n and s[pos] in '\t "': pos+=1
    return (o if o or q else None),pos
def words(l):
    out=[];p=0
    while True:
        w,p=word(l,p)
        if w is None: return out
        out.append(w)
def p4(t,tpl=(0,0,0,0)):
    m=re.fullmatch(r"(?:(\d*):)?(?:(\d*)/)?(\d*)(?:\.(\d*))?",t)
    if not m: raise CfgError("address %r"%t)
    g=[None if x is None or x=="" else int(x) for x in m.groups()]
    return A(*[v if v is not None else d for v,d in zip(g,tpl)])
class Parsed: pass
AREAFLAG=("UNCONFIRMED","MANDATORY","DEFREADONLY","IGNOREDUPES","IGNORESEENBY")
def parse(text):
    P=Parsed(); P.top=[];P.nodes=[];P.areas=[];P.comments=[];P.order=[]
    N=Ar=None
    for l in text.split("\n"):
        l=l.rstrip("\r")
        w=words(l)
        if not w or not w[0]: continue
        if w[0][0]==";": P.comments.append(l); P.order.append(("c",l)); continue
        k=w[0].upper(); a=w[1:]
        if k=="NODE":
            N=dict(addr=p4(a[0]),packer=a[1].upper(),pw=a[2],flags=sorted(x.upper() for x in a[3:]),defgroup="",afinfo=None,pktfrom=None,raf=None,rsysop=None)
            pri=[x for x in N["flags"] if x in("CRASH","HOLD","DIRECT")]
            P.nodes.append(N); P.order.append(("n",N["addr"]))
        elif k=="DEFAULTGROUP": N["defgroup"]=a[0].upper()[:1]
        elif k=="AREAFIXINFO":
            x=(a+["","","",""])[:4]; N["afinfo"]=(x[0],x[1].upper(),x[2].upper(),x[3].upper())
            if N["afinfo"]==("","","",""): N["afinfo"]=None
        elif k=="PKTFROM": N["pktfrom"]=p4(a[0])
        elif k=="REMOTEAF": N["raf"]=(a[0],a[1],"NEEDSPLUS" in [x.upper() for x in a[2:]])
        elif k=="REMOTESYSOP": N["rsysop"]=a[0] or None
        elif k in("AREA","NETMAIL","LOCALAREA"):
            Ar=dict(kind=k,tag=a[0][:79],aka=p4(a[1]),base=a[2].upper() if len(a)>2 else None,path=a[3] if len(a)>2 else None,exports=[],imports=[],banned=[],group="",desc="",flags=set(),keepnum=0,keepdays=0)
            P.areas.append(Ar); P.order.append(("a",Ar["tag"].lower()))
        elif k=="EXPORT":
            tpl=(0,0,0,0)
            for x in a:
                m=""
                for f in "!@%":
                    if x[:1]==f: m=f; x=x[1:]
                q=p4(x,tpl); tpl=(q.z,q.n,q.f,0); Ar["exports"].append((m,q))
        elif k=="IMPORT": Ar["imports"]+=[p4(x) for x in a]
        elif k=="BANNED": Ar["banned"]+=[p4(x) for x in a]
        elif k=="GROUP": Ar["group"]=a[0].upper()[:1]
        elif k=="DESCRIPTION": Ar["desc"]=a[0]
        elif k=="KEEPNUM": Ar["keepnum"]=int(a[0])
        elif k=="KEEPDAYS": Ar["keepdays"]=int(a[0])
        elif k in AREAFLAG: Ar["flags"].add(k)
        else:
            P.top.append((k,)+tuple(a)); P.order.append(("s",k)+tuple(a))
    return P
def diff(exp,got,areapath=True):
    """differences in meaning: [(signature,text)]"""
    out=[]
    def bad(s,t): out.append(("cfg:"+s,"configuration: "+t))
    if exp.top!=got.top:
        for i in range(max(len(exp.top),len(got.top))):
            e=exp.top[i] if i<len(exp.top) else None; g=got.top[i] if i<len(got.top) else None
            if e!=g: bad("statement","statement %d is %r instead of %r"%(i,g,e)); break
    for what,key in(("nodes","addr"),("areas","tag")):
        E,G=getattr(exp,what),getattr(got,what); f=lambda x:x[key].lower() if key=="tag" else x[key]
        ke,kg=[f(x) for x in E],[f(x) for x in G]
        if ke!=kg:
            m=[x for x in ke if x not in kg]; n=[x for x in kg if x not in ke]
            d=[x for x in set(kg) if kg.count(x)>1]
            if m: bad(what+":missing","%s missing: %s"%(what,m))
            if n: bad(what+":extra","%s that should not be there: %s"%(what,n))
            if d: bad(what+":twice","%s listed twice: %s"%(what,d))
            if not m and not n and not d: bad(what+":order","order of %s changed: %s instead of %s"%(what,kg,ke))
        gd={}
        for x in G: gd.setdefault(f(x),x)
        for x in E:
            g=gd.get(f(x))
            if g is None: continue
            for k in x:
                if k=="path" and not areapath: continue
                if x[k]!=g[k]: bad(what+":"+k,"%s %s: %s is %r instead of %r"%(what[:-1],x[key],k,g[k],x[k]))
    return out
