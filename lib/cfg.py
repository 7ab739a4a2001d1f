"""Configuration model and its text form."""
import random,re
from fido import A,P
class Node:
    def __init__(s,addr,packer="",pw="",flags=(),defgroup="",afinfo=None,pktfrom=None,raf=None,rsysop=None):
        s.addr=addr; s.packer=packer; s.pw=pw; s.flags=set(flags); s.defgroup=defgroup; s.afinfo=afinfo; s.pktfrom=pktfrom; s.raf=raf; s.rsysop=rsysop
class Aka:
    def __init__(s,addr,domain="",add=(),rem=()):
        s.addr=addr; s.domain=domain; s.add=list(add); s.rem=list(rem)
class Area:
    """kind: ECHO NETMAIL BAD DEFAULT ; base: MSG JAM or None"""
    def __init__(s,tag,aka,kind="ECHO",base="MSG",path=None,exports=(),imports=(),group="",flags=(),desc="",keepdays=0,keepnum=0,unconf=False,banned=()):
        s.tag=tag; s.aka=aka; s.kind=kind; s.base=base; s.path=path; s.exports=list(exports); s.imports=list(imports)
        s.group=group; s.flags=set(flags); s.desc=desc; s.keepdays=keepdays; s.keepnum=keepnum; s.unconf=unconf; s.banned=list(banned)
class Cfg:
    def __init__(s):
        s.akas=[]; s.nodes=[]; s.areas=[]; s.routes=[]; s.changes=[]; s.bounces=[]; s.fileattach=[]; s.filters=[]; s.switches=set()
        s.dupemode="BAD"; s.dupesize=200; s.loopmode="LOG+BAD"; s.defzone=1; s.maxpkt=0; s.maxbundle=0; s.nodelist=None
        s.sysop="Test Sysop"; s.areafixnames=["AreaFix"]; s.arealists=[]; s.groupnames={}; s.extra=[]; s.afmaxlines=0; s.jam_maxopen=0
        s.stats="cm.stats"; s.helpfile=None; s.beforetoss=None; s.beforepack=None; s.raw_tail=""
        s.packers=[("PK","pk a %a %f","pk x %a","CMPK")]
        s.inbound="in"; s.outbound="out"; s.tempdir="tmp"; s.pktdir="pkt"; s.createdir="new"; s.dupefile="dupes"; s.loglevel=6
        s.groups={}; s.mix=None; s.pad=None
    def node(s,addr):
        for n in s.nodes:
            if n.addr==addr: return n
    def area(s,tag):
        for a in s.areas:
            if a.tag.lower()==tag.lower(): return a
    def text(s,root=""):
        """root: prefix for directories (absolute short path ends with /). pad: seed; the directories and files of the
        system are then spelled with "./" in them, up to the longest path the program takes (99 characters)"""
        pr=random.Random(s.pad)
        def P(v):
            if s.pad is None or not root.startswith("/"): return root+v
            k=(pr.choice([99,99,98,97,pr.randint(60,99)])-len(root+v))
            return root+v if k<0 else root+"./"*(k//2)+("/" if k%2 else "")+v
        o=[]; w=o.append; q=lambda x:'"%s"'%x.replace('\\','\\\\').replace('"','\\"')
        w('; generated'); w('SYSOP %s'%q(s.sysop)); w('LOGFILE "%s"'%P("cm.log")); w('LOGLEVEL %d'%s.loglevel)
        w('DUPEFILE "%s" %d'%(P(s.dupefile),s.dupesize)); w('DUPEMODE %s'%s.dupemode); w('LOOPMODE %s'%s.loopmode)
        w('DEFAULTZONE %d'%s.defzone)
        if s.nodelist: w('NODELIST "%s%s" CMNL'%(root,s.nodelist))
        for k,v in(("INBOUND",s.inbound),("OUTBOUND",s.outbound),("TEMPDIR",s.tempdir),("CREATEPKTDIR",s.createdir),("PACKETDIR",s.pktdir)):
            w('%s "%s"'%(k,P(v)))
        w('STATSFILE "%s"'%P(s.stats))
        if s.maxpkt: w('MAXPKTSIZE %d'%s.maxpkt)
        if s.maxbundle: w('MAXBUNDLESIZE %d'%s.maxbundle)
        if s.beforetoss: w('BEFORETOSS %s'%q(s.beforetoss))
        if s.beforepack: w('BEFOREPACK %s'%q(s.beforepack))
        for g,n in sorted(s.groupnames.items()): w('GROUPNAME %s %s'%(g,q(n)))
        for p in s.packers: w('PACKER %s %s %s %s'%tuple(q(x) for x in p))
        for n in s.areafixnames: w('AREAFIXNAME %s'%q(n))
        if s.helpfile: w('AREAFIXHELP "%s%s"'%(root,s.helpfile))
        if s.afmaxlines: w('AREAFIXMAXLINES %d'%s.afmaxlines)
        for x in sorted(s.switches): w(x)
        if s.jam_maxopen: w('JAM_MAXOPEN %d'%s.jam_maxopen)
        for x in s.extra: w(x)
        for a in s.akas:
            w('AKA '+str(a.addr))
            if a.domain: w('DOMAIN %s'%q(a.domain))
            if a.add: w('ADDNODE '+" ".join(a.add))
            if a.rem: w('REMNODE '+" ".join(a.rem))
        for n in s.nodes:
            w('NODE %s %s %s %s'%(str(n.addr),q(n.packer),q(n.pw)," ".join(sorted(n.flags))))
            if n.defgroup: w('DEFAULTGROUP %s'%n.defgroup)
            if n.afinfo: w('AREAFIXINFO %s %s %s %s'%tuple(q(x) for x in n.afinfo))
            if n.pktfrom: w('PKTFROM '+str(n.pktfrom))
            if n.raf: w('REMOTEAF %s %s%s'%(q(n.raf[0]),q(n.raf[1])," NEEDSPLUS" if len(n.raf)>2 else ""))
            if n.rsysop: w('REMOTESYSOP %s'%q(n.rsysop))
        for x in s.arealists: w('AREALIST %s'%x)
        for r in s.routes: w('ROUTE %s %s %s'%(q(r[0]),q(r[1]),str(r[2])))
        for c in s.changes: w('CHANGE %s %s %s'%(q(c[0]),q(c[1]),q(c[2])))
        if s.bounces: w('BOUNCE '+" ".join(q(b) for b in s.bounces))
        if s.fileattach: w('FILEATTACH '+" ".join(q(b) for b in s.fileattach))
        for f in s.filters:
            w('FILTER '+f[0])
            for c in f[1]: w(c)
        for a in s.areas:
            if a.kind=="NETMAIL":
                w('NETMAIL %s %s %s %s'%(q(a.tag),str(a.aka),a.base,q(root+a.path)))
                if a.imports: w('IMPORT '+" ".join(str(x) for x in a.imports))
            elif a.kind=="LOCAL":
                w('LOCALAREA %s %s %s %s'%(q(a.tag),str(a.aka),a.base,q(root+a.path)))
            elif a.base:
                w('AREA %s %s %s %s'%(q(a.tag),str(a.aka),a.base,q(root+a.path)))
            else:
                w('AREA %s %s'%(q(a.tag),str(a.aka)))
            if a.unconf: w('UNCONFIRMED')
            if a.exports:
                for i in range(0,len(a.exports),6): w('EXPORT '+" ".join(m+str(n) for m,n in a.exports[i:i+6]))
            if a.banned: w('BANNED '+" ".join(str(n) for n in a.banned))
            if a.group: w('GROUP %s'%a.group)
            if a.desc: w('DESCRIPTION %s'%q(a.desc))
            for f in sorted(a.flags): w(f)
            if a.keepdays: w('KEEPDAYS %d'%a.keepdays)
            if a.keepnum: w('KEEPNUM %d'%a.keepnum)
        if s.mix is not None: o=mixcase(o,s.mix)
        return "\n".join(o)+"\n"+s.raw_tail
def mixcase(L,seed):
    """the same configuration in the spelling another person would use: keywords and their words in any case"""
    r=random.Random(seed); out=[]
    def z(x): return r.choice([x,x.lower(),x.capitalize(),"".join(r.choice([c.lower(),c.upper()]) for c in x)])
    for l in L:
        if not l or l[0]==";": out.append(l); continue
        k,_,rest=l.partition(" "); u=k.upper()
        if u in("DUPEMODE","LOOPMODE"): rest=z(rest)
        elif u in("NODELIST","CHANGE","NODE","REMOTEAF","AREALIST","AREA","NETMAIL","LOCALAREA"):
            # words outside quotes; CHANGE takes its words in quotes
            p=re.findall(r'"(?:\\\\.|[^"\\\\])*"|[^ "]+|[ ]+',rest)
            if u=="CHANGE": p=[z(x) if x[0]=='"' and x[1:2].isalpha() else x for x in p]
            else: p=[z(x) if x[0].isalpha() else x for x in p]
            rest="".join(p)
        out.append(z(k)+_+rest)
    return out
