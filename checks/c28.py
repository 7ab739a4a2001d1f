"""C28: a configuration with an error is refused as a whole; a correct one is accepted."""
import random,re,shutil,hashlib
from tossck import *
from cfg import Area
PROP="C28"; LEVEL="exploration"
RULE="a case is a correct configuration with waiting mail, run as it is and with one error of the catalogue (missing or unknown words, bad addresses and patterns, undeclared systems, packers, areas, misplaced settings, shared paths, broken filters, patterns without a nodelist) put in at a random place; distinct = distinct (error, command, place in the file)"
ASSUME=["the first error in the file is the one reported"]
def cases(tier,seed):
    n=5000 if tier=="quick" else 40000
    return [{"seed":seed*1000003+i} for i in range(n)]
BADADDR=["x","2:200","2:200/x","2:200/1.x","2::1/1","2:1/1/1","2:1/1.1.1","1/2:3","-1:2/3","2:200/1@fido","2;200/1","*:*/*.*"]
BADPAT=["x","2:x/1","2:1/1/1","2:1/1.1.1","2:2:1/1","a*","2:200/1-5","NETS 2:200","*:*/*.* x"]
def addr_bad(r):
    while True:
        x=r.choice(BADADDR)
        if x!="2:200": return x
def config(r,g):
    c=g.cfg(nnodes=r.randint(2,5),nareas=r.randint(1,4),switches=[x for x in("CHECKSEENBY","STRIPRE","PATH3D","ADDTID","WEEKDAYNAMING","NOROUTE","FORCEINTL","JAM_HIGHWATER","MSG_HIGHWATER","JAM_LINK") if r.random()<.3 and x!="NOROUTE"])
    for n in c.nodes:
        if r.random()<.4: n.afinfo=("pw","AB","C","")
        if r.random()<.3: n.defgroup="A"
        if r.random()<.3: n.raf=("AreaFix","x")+((True,) if r.random()<.5 else ())
        if r.random()<.3: n.rsysop="Some Body"
    c.groupnames={k:"Group "+k for k in "ABC" if r.random()<.3}
    for i in range(r.randint(0,2)): c.routes.append((r.choice(["2:*/*.*","2:200/*.*","ZONE 2","NET 2:200","NODE 2:200/1"]),r.choice(["*:*/*.*","NET","NODE",str(r.choice(c.nodes).addr)]),r.choice(c.akas).addr))
    for i in range(r.randint(0,2)): c.changes.append((r.choice(["NORMAL","CRASH","DIRECT","HOLD","*","NORMAL,CRASH"]),r.choice(["*:*/*.*","2:200/*.*"]),r.choice(["CRASH","HOLD","NORMAL","DIRECT"])))
    if r.random()<.3: c.bounces=["2:200/*.*","ZONE 9"]
    if r.random()<.3: c.fileattach=["*:*/*.*"]
    c.areas.append(Area("LOCALX",c.akas[0].addr,"LOCAL","JAM","ar/lx"))
    if r.random()<.5: c.filters=[('FROMNAME="nobody here"',[r.choice(['KILL','TWIT','COPY "LOCALX"','WRITELOG "x"','WRITEBAD "y"'])])]
    if r.random()<.3: c.afmaxlines=50
    if r.random()<.3: c.maxpkt=100
    if r.random()<.3: c.jam_maxopen=3
    return c
def top(r,c):
    """broken lines that may stand anywhere after the addresses, packers and systems"""
    k=str(c.akas[0].addr); n=str(c.nodes[0].addr); B=addr_bad(r); Pb=r.choice(BADPAT); un="9:999/999.9"
    W=r.choice(["NONSENSE","AREAS","NOD","AREAFIX","KEEP","X"*29,"SWITCH","12","ALLOWRESCANS","'NODE'"])
    return r.choice([
     W,W+" a b c",
     "AKA","AKA "+B,"GROUPNAME","GROUPNAME A",'GROUPNAME 1 "x"',
     "NODE","NODE "+un,'NODE %s ""'%un,'NODE %s "" ""'%B,'NODE %s "NOPK" ""'%un,'NODE %s "" "" %s'%(un,r.choice(["BADFLAG","PASIVE","HOLD CRASHED","READONLY"])),
     "AREA",'AREA "NEWX"','AREA "NEWX" '+B,'AREA "NEWX" '+un,'AREA "NEWX" %s SQUISH "/x"'%k,'AREA "NEWX" %s JAM'%k,'NETMAIL "NEWX" %s'%k,'NETMAIL "NEWX"',"NETMAIL",'LOCALAREA "NEWX" %s'%k,'LOCALAREA','AREA "BAD" %s'%k,
     "INBOUND","OUTBOUND","SYSOP","BEFORETOSS","BEFOREPACK","NODELIST",'NODELIST "/x"','NODELIST "/x" V8','AREAFIXHELP','LOGFILE','LOGLEVEL','LOGLEVEL 0','LOGLEVEL 7','LOGLEVEL x','STATSFILE','DUPEFILE','DUPEFILE "/x"','DUPEMODE','DUPEMODE MAYBE','LOOPMODE','LOOPMODE SOME','TEMPDIR','CREATEPKTDIR','PACKETDIR','AREAFIXNAME',
     'PACKER','PACKER "Z"','PACKER "Z" "z a"','PACKER "Z" "z a" "z x"',
     'ROUTE','ROUTE "*"','ROUTE "*" "*:*/*.*"','ROUTE "%s" "*:*/*.*" %s'%(Pb,k),'ROUTE "*" "*:*/*.*" '+B,'ROUTE "*" "*:*/*.*" '+un,'ROUTE "*" "%s" %s'%(r.choice(["x","2:x/1","NETZ"]),k),
     'CHANGE','CHANGE "*"','CHANGE "NORMAL" "2:200/*"','CHANGE "FAST" "*" "CRASH"','CHANGE "NORMAL,FAST" "*" "CRASH"','CHANGE "*" "%s" "CRASH"'%Pb,'CHANGE "*" "*" "FAST"',
     'AREALIST','AREALIST '+n,'AREALIST %s "/x"'%B,'AREALIST %s "/x"'%un,'AREALIST %s "/x" GROUP'%n,'AREALIST %s "/x" GROUP "1"'%n,'AREALIST %s "/x" FORWARDED'%n,
     'BOUNCE "%s"'%Pb,'FILEATTACH "*:*/*.*" "%s"'%Pb,'FILTER','MAXPKTSIZE','MAXBUNDLESIZE','DEFAULTZONE','AREAFIXMAXLINES','JAM_MAXOPEN',
    ]),"top"
def infilter(r,c):
    k=r.choice(['COPY','EXECUTE','WRITELOG','WRITEBAD','BOUNCEMSG','BOUNCEHEADER','REMAPMSG','REMAPMSG "a"','REMAPMSG "a" "%s"'%r.choice(["x","2:x/1"])])
    return ['FILTER FROMNAME="zz"',k],"filter"
def innode(r,c):
    return r.choice(['PKTFROM','PKTFROM '+addr_bad(r),'AREAFIXINFO','AREAFIXINFO "p" "A1"','AREAFIXINFO "p" "A" "2"','AREAFIXINFO "p" "A" "" "%"','DEFAULTGROUP','DEFAULTGROUP 1','REMOTEAF','REMOTEAF "a"','REMOTEAF "a" "b" NEEDPLUS','REMOTESYSOP'])
def inarea(r,c):
    un="9:999/999.9"
    return r.choice(['EXPORT '+un,'EXPORT '+str(c.nodes[0].addr)+" "+un,'EXPORT '+addr_bad(r),'EXPORT !'+un,'BANNED '+un,'BANNED '+addr_bad(r),'DESCRIPTION','GROUP','GROUP 1','KEEPNUM','KEEPDAYS','IMPORT '+str(c.nodes[0].addr)])
def kw(l): return l.split(" ")[0].upper() if l and l[0]!=";" else ""
def breakit(r,c,L):
    """one error in the lines L. returns (lines, index of the wrong line or None, name)"""
    isA=lambda l: kw(l) in("AREA","NETMAIL","LOCALAREA")
    first=lambda f: next((i for i,l in enumerate(L) if f(l)),len(L))
    last=lambda f: max((i for i,l in enumerate(L) if f(l)),default=-1)
    x=r.random()
    if x<.55:
        w,_=top(r,c); i=r.randint(last(lambda l:kw(l)=="NODE")+1,len(L))
        return L[:i]+[w]+L[i:],i,re.sub(r"[\d.]+","N",w)[:40]
    if x<.63:
        w,_=infilter(r,c); i=first(isA); i=r.choice([i,len(L)]); return L[:i]+w+L[i:],i+1,w[1]
    if x<.72:
        w=innode(r,c); i=r.choice([j for j,l in enumerate(L) if kw(l)=="NODE"])+1; return L[:i]+[w]+L[i:],i,"node:"+w[:30]
    if x<.82:
        es=[j for j,l in enumerate(L) if kw(l)=="AREA" and '"BAD"' not in l]
        if es:
            w=inarea(r,c); i=r.choice(es)+1; return L[:i]+[w]+L[i:],i,"area:"+re.sub(r"[\d.]+","N",w)[:30]
    if x<.88:
        # settings before anything they could belong to
        k=r.choice([("DOMAIN fido",kw_is("AKA")),("ADDNODE 1/1",kw_is("AKA")),("REMNODE 1/1",kw_is("AKA")),("PKTFROM 2:1/1",kw_is("NODE")),('AREAFIXINFO "a" "A"',kw_is("NODE")),("DEFAULTGROUP A",kw_is("NODE")),('REMOTEAF "a" "b"',kw_is("NODE")),('REMOTESYSOP "a"',kw_is("NODE"))]+
          [(s,isA) for s in("UNCONFIRMED","MANDATORY","DEFREADONLY","IGNOREDUPES","IGNORESEENBY","EXPORT 2:1/1","IMPORT 2:1/1","BANNED 2:1/1",'DESCRIPTION "x"',"GROUP A","KEEPNUM 3","KEEPDAYS 3")]+
          [(s,kw_is("FILTER")) for s in("KILL","TWIT",'COPY "LOCALX"','EXECUTE "x"','WRITELOG "x"','WRITEBAD "x"','BOUNCEMSG "x"','BOUNCEHEADER "x"','REMAPMSG "x" "*:*/*.*"')])
        i=r.randint(0,first(k[1])); return L[:i]+[k[0]]+L[i:],i,"early:"+k[0][:20]
    if x<.91:
        i=r.choice([j for j,l in enumerate(L) if kw(l)=="NETMAIL" or '"BAD"' in l or kw(l)=="LOCALAREA"] or [0])
        if isA(L[i]): w="EXPORT "+str(c.nodes[0].addr); return L[:i+1]+[w]+L[i+1:],i+1,"export:"+kw(L[i])
    if x<.95:
        b=[a for a in c.areas if a.base and a.path]
        if b:
            a=r.choice(b); p=next(l for l in L if isA(l) and '"%s"'%a.tag in l).rsplit('"',2)[1]
            if r.random()<.4: p=p[:-2]+p[-2:].upper()
            return L+['%s "OTHERX" %s %s "%s"'%(r.choice(["AREA","NETMAIL","LOCALAREA"]),str(c.akas[0].addr),a.base,p)],None,"path"
    w=r.choice([['FILTER FROMNAME="a"','COPY "NOSUCHAREA"'],['FILTER FROMNAME="a"','COPY "NETMAIL0"'],['FILTER FROMNAME="a" AND'],['FILTER (FROMNAME="a"'],['FILTER NOSUCHVAR="a"'],['FILTER "'],['ROUTE "HUB 2:200/1" "*:*/*.*" %s'%str(c.akas[0].addr)],['ROUTE "*" "%s" %s'%(r.choice(["HUB","REGION","HOST"][:2]),str(c.akas[0].addr))],['BOUNCE "REGION 2:20"'],['FILEATTACH "HUB 2:200/1"'],['CHANGE "*" "REGION 2:20" "HOLD"'],['FILTER FROMNAME="a"','REMAPMSG "x" "HUB"']])
    return L+w,None,"check:"+w[-1][:30]
def kw_is(k): return lambda l: kw(l)==k
def tree(w):
    o={}
    for d,_,fs in os.walk(w.root):
        for f in fs:
            p=os.path.join(d,f); o[p[len(w.root):]]=hashlib.sha1(open(p,"rb").read()).hexdigest()
        o[d[len(w.root):]+"/"]=1
    return o
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); c=config(r,g); t=Toss(ctx,c); w=t.w; d=[]
    n=r.choice(c.nodes).addr; es=[a for a in c.areas if a.kind=="ECHO" and a.exports]
    ms=[(n,g.net(c,n,r.choice(c.akas).addr,attr=0)[0])]
    if es: a=r.choice(es); e=a.exports[0][1]; ms.append((e,g.echo(c,e,by(a.tag))[0]))
    f=[]; deliver(g,c,f,ms,bundle=0); t.inbound(f)
    loc=[a for a in c.areas if a.base and a.kind=="NETMAIL"]
    if loc: t.local(g,loc[0],dest=n,attr=LOCAL)
    L=c.text(w.root).rstrip("\n").split("\n")
    # correct lines, some at the edge of what is allowed
    k=str(c.akas[0].addr); q=str(c.nodes[0].addr); good=['LOGLEVEL 1','LOGLEVEL 6','LOGLEVEL 3','GROUPNAME A "first"','GROUPNAME Z "last"','DUPEMODE IGNORE','DUPEMODE BAD','DUPEMODE KILL','LOOPMODE IGNORE','LOOPMODE LOG','LOOPMODE LOG+BAD','SYSOP "A B"','BOUNCE "9:1/1.0"','FILEATTACH "9:*/*.*"','FILEATTACH "ZONE 9" "NET 9:1" "NODE 9:1/1"','CHANGE "NORMAL,CRASH,HOLD,DIRECT" "9:*/*.*" "HOLD"','ROUTE "9:*/*.*" "%s" %s'%(q,k),'ROUTE "9:9/9.9" "NODE" %s'%k,'ROUTE "9:?/1.*" "*:*/*.*" %s'%k,'AREALIST %s "/nonexistent"'%q,'AREALIST %s "/nonexistent" FORWARD GROUP Z DESC'%q,'AKA 9:999/998.32767','AKA 4095:32767/32767.0','NODE 9:999/997.1 "" "" PASSIVE HOLD','NODE 9:999/997.1 "" "" NOTIFY NONETMAILPASSWORD PACKNETMAIL NOSEENBY AUTOADD FORWARDREQ SENDAREAFIX SENDTEXT CRASH','NODE 9:999/996 "" "" TINYSEENBY DIRECT',
      'AREA "GOODX" %s'%k,'LOCALAREA "GOODY" %s MSG "%sar/goody"'%(k,w.root),'JAM_MAXOPEN 1','AREAFIXMAXLINES 1','MAXPKTSIZE 1']
    for x in r.sample(good,r.randint(0,6)):
        L.append(x)
    B,i,name=breakit(r,c,L)
    # lines without meaning in between
    k=0
    while k<=len(B):
        if r.random()<.05: B.insert(k,r.choice(["","; remark","   ",";NODE 2:1/1","\t"])); i=i+1 if i is not None and k<=i else i; k+=1
        k+=1
    if r.random()<.15 and i is not None: B[i]=r.choice(["  ","\t"])+B[i]
    end="\n" if r.random()<.9 else "\r\n"
    open(w.root+"cm.prefs","w",encoding="latin1",newline="").write(end.join(B)+(end if r.random()<.9 else ""))
    t0=tree(w); cmd=r.choice([["TOSS"],["TOSS"],["SCAN"],["SENDQUERY",str(n)],["TOSS","SCAN"],["RESCAN","X","RESCANNODE",str(n)]])
    x=w.cm(*cmd)
    if not runstate(x,d): select(d,("*",),o); t.close(); return
    o.count("broken configurations"); o.key(name,cmd[0],i is None)
    bad=B[i] if i is not None else name
    if x.rc==0: o.bad("accepted:"+name.split(" ")[0],"%s: the configuration with %r was accepted: %s"%(cmd,bad,x.text[-200:]))
    elif "onfiguration error" not in x.text: o.bad("message","%s: wrong configuration (%r) ended with: %s"%(cmd,bad,x.text[-300:]))
    elif i is not None and not re.search(r"on line %d\b"%(i+1),x.text): o.bad("line","%r is on line %d, reported: %s"%(bad,i+1,x.text[-300:]))
    t1=tree(w)
    if t1!=t0: o.bad("changed","a run with a wrong configuration (%r) changed %s"%(bad,[k for k in set(t0)|set(t1) if t0.get(k)!=t1.get(k)][:5]))
    if not o.viol:
        open(w.root+"cm.prefs","w",encoding="latin1").write("\n".join(L)+"\n"); y=w.cm("TOSS"); d=[]
        if runstate(y,d) and y.rc: o.bad("refused","a correct configuration was refused: "+y.text[-300:])
        elif os.listdir(w.root+"in"): o.bad("nottossed","the mail was not tossed with the corrected configuration: "+y.text[-300:])
        select(d,("*",),o); o.count("corrected and run")
    if case["seed"]%500==1: o.sample={"error":bad,"command":cmd,"output":x.text[-120:]}
    t.close()
