"""C25: the command line tools never corrupt memory on any input file, configuration or arguments."""
import random,shutil
from tossck import *
from world import World
from cfg import Area
import hostile as H,nlgen,c18,c21,c14,c15
from filt import expr,render
PROP="C25"; LEVEL="exploration"
RULE="a case is one program under ASan and UBSan with structure-aware hostile input: damaged and odd node lists and indexes, message bases, statistics files, outbounds, texts, configurations and arguments; distinct = distinct (program, kind of input, exit code, sizes)"
CATS=("*",); KINDS=("asan","msan")
ASSUME=["a run that takes longer than the time limit twice counts as a hang","arguments of up to 4000 characters","*.msg files of the tosser numbered up to 65535, what the format's own 16-bit number fields hold (CrashMail looks at every number in between)","programs run as an unprivileged user, so that a damaged path reaches nothing real"]
TOOLS=["crashlist","crashgetnode","crashlistout","crashexport","crashmaint","crashstats","crashwrite","crashmail","crashmail"]
def cases(tier,seed):
    n=2600 if tier=="quick" else 60000
    return [{"seed":seed*1000003+i,"tool":TOOLS[i%len(TOOLS)]} for i in range(n)]
NB=["setpriv","--reuid","65534","--regid","65534","--keep-groups"]
def J(r,n=None): return H.junk(r,n).replace(b"\0",b"")
def arg(r):
    k=r.random()
    if k<.3: return H.addr(r).replace(b"\0",b"")
    if k<.6: return J(r,r.choice([0,1,5,20,79,80,99,100,101,199,200,255,256,300,999,1000,1001,4000]))
    if k<.8: return H.num(r)
    return r.choice([b"?",b"*",b"",b"SETTINGS",b"DIR",b"PATTERN",b"GROUP",b"%s%n%d",b"a"*4000,b"-1",b"/",b".",b"..",b"\xff\xfe"])
def mut_text(r,b):
    """line-wise and byte-wise damage"""
    L=b.split(b"\n")
    for _ in range(r.choice([0,1,1,2,4,10])):
        i=r.randrange(len(L)); k=r.random()
        if k<.15: L[i]=J(r)
        elif k<.25: L[i]=L[i]+r.choice([b"",b" "])+J(r)
        elif k<.35: L.insert(i,L[r.randrange(len(L))])
        elif k<.45: L[i]=L[i][:r.randint(0,len(L[i]))]
        elif k<.75:
            w=L[i].split(b" "); j=r.randrange(len(w)); w[j]=r.choice([b"",b'""',b'"',b'"'+J(r),J(r),H.addr(r),H.num(r),b'"'+J(r)+b'"',b"\\",b'"\\',b"%s%n",b"*"]); L[i]=b" ".join(w)
        elif k<.85:
            w=L[i].split(b" "); del w[r.randrange(len(w))]; L[i]=b" ".join(w)
        elif k<.9: L[i]=L[i].replace(b" ",r.choice([b"  ",b"\t",b"",b'" "']))
        else: del L[i]; L=L or [b""]
    b=b"\n".join(L)
    if r.random()<.15: b=H.mutate(r,b)
    if r.random()<.1: b=b.replace(b"\n",b"\r\n")
    if r.random()<.05: b=b.rstrip(b"\n")
    return b
def bigcfg(r,g,c):
    """use every keyword"""
    c.bounces=["2:*/*.*"]; c.fileattach=["*:*/*.*"]; c.changes=[("*","2:*/*.*","HOLD")]
    c.areas.append(Area("DEFAULT",c.akas[0].addr,"DEFAULT","JAM","ar/d_%l"))
    for n in c.nodes: n.afinfo=("pw","AB","C","D"); n.defgroup="A"
    pool=[n.addr for n in c.nodes]+[k.addr for k in c.akas]
    for _ in range(r.choice([0,1,3])):
        e=render(expr(r,pool,None),r)
        if len(e)<380: c.filters=(c.filters or [])+[(e,[r.choice(['WRITELOG "x %s"',"KILL",'REMAPMSG "*" "2:*/*.*"','WRITEBAD "x"',"TWIT",'BOUNCEMSG "no"'])])]
EXTRA=["GROUPNAME A \"Name\"","GROUPNAME \"\" \"x\"","GROUPNAME","GROUPNAME 1 x","GROUPNAME \xe5 y","REMOVE","NODE","AKA","AREA","EXPORT","EXPORT 2:1/1","IMPORT","BANNED 1:1/1","DESCRIPTION x","ROUTE \"1:*/*\"","CHANGE *","FILTER","FILTER \"\"","FILTER \"(\"","FILTER \"NOT\" KILL","FILTER (A=B) KILL","TINYSEENBY","PACKER PK","PACKER \"\" \"\" \"\" \"\"","ARCHIVER","MAXPKTSIZE -1","MAXPKTSIZE x","DUPESIZE 99999999999","LOGLEVEL 99","LOGLEVEL 0","STATSFILE","TIMESTAMP","NODELIST x CMNL","NODELIST x","NODELIST \"\" V7+","JAM_MAXOPEN 0","JAM_MAXOPEN -5","SEMAPHORE x","AREAFIXNAME","AREAFIXINFO","AREAFIXINFO \"\" \"\" \"\" \"\"","DEFAULTGROUP \"\"","DEFAULTGROUP","DEFAULTGROUP ZZ","REMOTEAF","REMOTEAF a","REMOTESYSOP a","ADDNODE 1:1/1","DOMAIN","DOMAIN x","AREALIST","AREALIST 2:1/1","AREALIST 2:1/1 x FORWARD","AREALIST 2:1/1 x GROUP","AREALIST 2:1/1 x GROUP \"\"","BOUNCE","FILEATTACH","FILEATTACH \"\"","EXPORT \"\"","EXPORT % ! @","KEEPNUM","KEEPNUM -1","KEEPDAYS 99999999999","UNCONFIRMED","MANDATORY","GROUP \"\"","GROUP","GROUP aa","NETMAIL","BADAREA","LOCALAREA","LOOPMODE","DUPEMODE","DUPEMODE x","SYSOP \"\"","SYSOP "+"x"*90,"INBOUND","OUTBOUND \"\"","TEMPDIR","CREATEPKTDIR \"\"","PACKETDIR","LOGFILE \"\"","INCLUDE x","XYZZY"]
KW="ADDNODE AKA AREA AREAFIXHELP AREAFIXINFO AREAFIXMAXLINES AREAFIXNAME AREALIST BANNED BEFOREPACK BEFORETOSS BOUNCE BOUNCEHEADER BOUNCEMSG CHANGE COPY CREATEPKTDIR DEFAULTGROUP DEFAULTZONE DESCRIPTION DOMAIN DUPEFILE DUPEMODE EXECUTE EXPORT FILEATTACH FILTER GROUP GROUPNAME IMPORT INBOUND JAM_MAXOPEN KEEPDAYS KEEPNUM LOCALAREA LOGFILE LOGLEVEL LOOPMODE MASQUERADE MAXBUNDLESIZE MAXPKTSIZE NETMAIL NODE NODELIST OUTBOUND PACKER PACKETDIR PKTFROM REMAPMSG REMNODE REMOTEAF REMOTESYSOP ROUTE STATSFILE SYSOP TEMPDIR WRITEBAD WRITELOG".split()
def kwline(r):
    """any keyword with any words"""
    w=lambda: r.choice([b'""',b"x",H.addr(r),H.num(r),b'"'+J(r)+b'"',b'"'+b"x"*r.choice([34,35,36,79,80,81,99,100,101,120,199,200,201,399,400,401,1000])+b'"',b"*",b"NORMAL",b"JAM",b"MSG",b"A",b"PK",b"2:200/1",b"*:*/*.*",b"CMNL",b"V7+",b"LOG+BAD",b"NOTIFY",b"PASSIVE",b"DESC",b"FORWARD",b"GROUP",b'"AB"',b"KB",b'"SUBJECT=x"',b'"(TONAME=\\"a\\" OR NOT (TEXT|b))"',b"%s",b"REGION",b"NET",b"HUB"])
    return b" ".join([by(r.choice(KW))]+[w() for _ in range(r.choice([0,1,1,2,2,3,4,5,12]))]).replace(b"\n",b"").replace(b"\0",b"")
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); tool=case["tool"]
    c=g.cfg(nnodes=r.randint(1,4),nareas=r.randint(1,4),switches=[x for x in("ADDTID","MSG_HIGHWATER","JAM_HIGHWATER","JAM_LINK","JAM_QUICKLINK","MSG_WRITEBACK") if r.random()<.3])
    kind="msan" if r.random()<.3 else "asan"; o.count("cases with the %s build"%kind)
    w=World(ctx.base,kind,ctx.bins,c); w.timeout=ctx.timeout; root=w.root
    p=ctx.base
    for _ in range(2):
        if os.stat(p).st_mode&5!=5: os.chmod(p,0o755)
        p=os.path.dirname(p)
    jobs=globals()["t_"+tool](r,g,c,w,o)
    os.system("chown -R 65534:65534 '%s'"%root)
    d=[]; key=[]
    for name,args,env in jobs:
        x=w.run(name,*args,env=env,wrap=NB); o.count("%s exit code %s"%(name,x.rc)); o.evals+=1
        if x.rc in(126,127) and b"setpriv" in x.out: o.bad("oracle:setpriv","cannot run as another user: "+x.text[:200]); break
        runstate(x,d); key.append((name,x.rc,len(x.out)//200))
        if d: break
    select(d,CATS,o)
    o.key(tool,key,[len(a) for n,args,e in jobs for a in args][:6])
    if case["seed"]%200==1: o.sample={"tool":tool,"runs":[(k[0],k[1]) for k in key]}
    w.close()
def t_crashlist(r,g,c,w,o):
    nl=w.root+"nl"; os.mkdir(nl); c18.lists(r,nl)
    for f in os.listdir(nl):
        p=nl+"/"+f
        if r.random()<.6:
            b=open(p,"rb").read(); st=os.stat(p)
            if r.random()<.5: b=mut_nl(r,b) if f!="cmnodelist.prefs" else mut_text(r,b)
            else: b=H.mutate(r,b)
            open(p,"wb").write(b); os.utime(p,(st.st_mtime,st.st_mtime))
    if r.random()<.15: open(nl+"/"+"x"*r.choice([60,100,200]),"wb").write(b"Zone,1\n")
    if r.random()<.2:
        with open(nl+"/cmnodelist.prefs","ab") as f: f.write(r.choice([b"x"*r.choice([60,100,200])+b"\n",b"a b c d\n",b"nodelist.txt 99999999\n",b'"',b'""\n',b"\\",b"\t\n",b"NODELIST -1"]))
    if r.random()<.05: os.unlink(nl+"/cmnodelist.prefs")
    if r.random()<.05: os.mkdir(nl+"/cmnodelist.index")
    j=[("crashlist",[nl] if r.random()<.8 else [arg(r) for _ in range(r.randint(0,3))],{"CMNODELISTDIR":nl} if r.random()<.3 else None)]
    return j+[("crashgetnode",[H.addr(r).replace(b"\0",b"") if r.random()<.4 else str(A(r.choice([1,2,5,9]),r.randint(1,400),r.randint(0,400),0)),nl],None) for _ in range(2)]
def mut_nl(r,b):
    L=b.split(b"\n")
    for _ in range(r.choice([1,3,10,40])):
        i=r.randrange(len(L)); k=r.random(); w=L[i].split(b",")
        if k<.4: w[r.randrange(len(w))]=r.choice([b"",J(r),H.num(r),b"Zone",b"Host",b"Region",b"Hub",b"Pvt",b"Boss",b"Point",b"Down",b"Hold",b"boss"])
        elif k<.6: w=w[:r.randint(0,len(w))]
        elif k<.7: w=[r.choice([b"Boss",b"Point",b"Zone",b"Region",b"Host",b"Hub",b"",b";",b";A",b"\x1a",b"boss"]),H.addr(r)]+w[1:]
        elif k<.8: w+= [J(r)]*r.choice([1,10,100])
        elif k<.9: w=[b"Boss",H.addr(r)]
        else: w=[J(r)]
        L[i]=b",".join(w)
    return b"\n".join(L)
def t_crashgetnode(r,g,c,w,o):
    nl=w.root+"nl"; os.mkdir(nl); L=c18.lists(r,nl)
    x=w.run("crashlist",nl)
    if x.rc or x.san: o.bad("run:crashlist","crashlist failed on a good list: "+x.text[-300:])
    if r.random()<.85:
        p=nl+"/cmnodelist.index"; b=open(p,"rb").read(); k=r.random()
        if k<.7: H.corrupt_file(r,p)
        elif k<.8: open(p,"wb").write(b[:r.randint(0,min(len(b),600))])
        else: open(p,"wb").write(b[:4]+bytes(r.getrandbits(8) for _ in range(r.choice([0,10,200,3000]))))
    if r.random()<.4:
        f=r.choice([x for x in os.listdir(nl) if x not in("cmnodelist.index","cmnodelist.prefs")]); b=open(nl+"/"+f,"rb").read()
        if r.random()<.2: os.unlink(nl+"/"+f)
        else: open(nl+"/"+f,"wb").write(r.choice([H.mutate(r,b),b[:len(b)//2],b.replace(b"\r\n",b"\0\n"),b.replace(b"\n",b""),mut_nl(r,b)]))
    j=[]
    for _ in range(r.randint(2,5)):
        a=str(c18.near(r,L)) if L.e and r.random()<.8 else arg(r)
        j.append(("crashgetnode",[a]+([nl] if r.random()<.8 else [arg(r)]) if r.random()<.8 else [a],{"CMNODELISTDIR":nl} if r.random()<.5 else {"CMNODELISTDIR":lat(arg(r))[:3000]} if r.random()<.2 else None))
    # and the tosser using it
    if r.random()<.5:
        c.nodelist="nl"; c.bounces=["*:*/*.*"]; w.setup()
        for i in range(2): w.put("%08x.pkt"%r.getrandbits(32),H.packet(r,g,c))
        j.append(("crashmail",["SETTINGS",w.root+"cm.prefs","TOSS"],None))
    return j
def t_crashlistout(r,g,c,w,o):
    d=w.root+"out"
    for n in(".001",".fff",".1000",".zzz"):
        if r.random()<.4: os.mkdir(d+n)
    dirs=[d]+[d+n for n in(".001",".fff",".1000",".zzz") if os.path.isdir(d+n)]
    for _ in range(r.randint(0,12)):
        q=r.choice(dirs); n="%04x%04x"%(r.getrandbits(16),r.getrandbits(16))
        if r.random()<.15: n=lat(J(r,r.choice([1,8,8,60,200]))).replace("/","_")
        ext=r.choice(["flo","clo","hlo","dlo","FLO","out","cut","hut","dut","req","pnt","bsy","try","csy","x",".."])
        if ext=="pnt":
            try: os.makedirs(q+"/"+n+".pnt",exist_ok=True)
            except OSError: continue
            q=q+"/"+n+".pnt"; n="%08x"%r.getrandbits(32); ext=r.choice(["flo","out","req"])
        if r.random()<.03:
            try: os.mkdir(q+"/"+n+"."+ext)
            except OSError: pass
            continue
        L=[]
        for _ in range(r.choice([0,1,3,20])):
            k=r.random()
            L.append(r.choice([b"",b"^",b"#",b"-",b"~",b"^^"])+(J(r) if k<.4 else by(w.root)+b"out" if k<.5 else b"x"*r.choice([90,99,100,101,150,199,200,400,5000]) if k<.7 else by(w.root)+b"cm.prefs" if k<.8 else b"" if k<.85 else J(r,r.choice([198,199,200,201,9999]))))
        b=r.choice([b"\n",b"\r\n",b"\r"]).join(L)+r.choice([b"",b"\n"])
        if r.random()<.1: b+=bytes(r.getrandbits(8) for _ in range(500))
        try: open(q+"/"+n+"."+ext,"wb").write(b); os.utime(q+"/"+n+"."+ext,(r.choice([0,1,2**31-1,2**31,2**33,10**9,-1]),)*2)
        except (OSError,ValueError): pass
    j=[]
    for _ in range(3):
        a=[d] if r.random()<.85 else [arg(r)]
        if r.random()<.4: a+=["ZONE",H.num(r)]
        if r.random()<.6: a+=["PATTERN",r.choice([b"*",b"*:*/*",H.addr(r),arg(r),b"?"*300,b"*"*300,b"1:2/3.4"]).replace(b"\0",b"")]
        if r.random()<.6: a+=["VERBOSE"]
        if r.random()<.1: a=[arg(r) for _ in range(r.randint(0,5))]
        j.append(("crashlistout",a,{"CMOUTBOUND":r.choice([d,"x"*r.choice([99,100,200,1000])])} if r.random()<.3 else {"CMOUTBOUNDZONE":lat(H.num(r))} if r.random()<.2 else None))
    return j
def hcfg(r,g,c,w,relative=True):
    bigcfg(r,g,c)
    if r.random()<.3:
        for a in c.areas:
            if r.random()<.5: a.desc=r.choice(["x"*79,"d"*78+'"',"\\"*60,"%s%n","\xe5"*79,"x"*300])
            if r.random()<.2 and a.kind=="ECHO": a.exports=[(r.choice(["","!","@","%"]),g.addr()) for _ in range(r.choice([0,1,30,300]))]
    w.cfg=c; w.setup()
    b=open(w.root+"cm.prefs","rb").read().replace(by(w.root),b"")
    if r.random()<.3:
        L=b.split(b"\n")
        for _ in range(r.choice([1,2,5])): L.insert(r.randint(0,len(L)),by(r.choice(EXTRA)))
        b=b"\n".join(L)
    if r.random()<.25: b=c15.messy(r,b.decode("latin1")).encode("latin1") if False else b
    if r.random()<.75: b=mut_text(r,b)
    if r.random()<.05: b+=b"AREA \""+b"x"*r.choice([3990,3999,4000,4001,8000])+b"\""
    if r.random()<.03: b=bytes(r.getrandbits(8) for _ in range(r.choice([0,1,3000])))
    open(w.root+"cm.prefs","wb").write(b)
def t_crashexport(r,g,c,w,o):
    hcfg(r,g,c,w); j=[]
    for _ in range(3):
        f=r.choice(["areasbbs","forward","forwardnodesc","golded","timed","GOLDED","forward","X",""])
        a=["cm.prefs","exp.out",f]+(["GROUP",r.choice([b"A",b"",b"ABCDEFGHIJKLMNOPQRSTUVWXYZ",arg(r)])] if r.random()<.5 else [])
        if r.random()<.1: a=[arg(r) for _ in range(r.randint(0,5))]
        if r.random()<.05 and a: a[0]="nosuch"
        if r.random()<.05 and len(a)>1: a[1]=b"x"*r.choice([50,100,200,300])
        j.append(("crashexport",a,None))
    return j
def bases(r,g,c,w,big=True):
    t=1780000000
    for a in c.areas:
        if not a.base or not a.path or "%" in a.path: continue
        n=r.choice([0,1,3,10])
        if a.base=="MSG":
            os.makedirs(w.root+a.path,exist_ok=True)
            for i in range(1,n+1):
                p=w.root+a.path+"/%d.msg"%r.choice([i,i*3,i+1000])
                write_msgfile(p,g.name(),g.name(),g.subj(),g.date(),g.addr(),g.addr(),r.getrandbits(16),g.body(g.token(),False),replyto=r.randint(0,20),nextreply=r.randint(0,20))
                if r.random()<.3: H.corrupt_file(r,p)
            for x in r.sample(["0.msg",*(["99999999999.msg","4294967295.msg"] if big else []),"-1.msg","x.msg","1.MSG","001.msg","2.msgx","a"*200+".msg","65535.msg"],r.randint(0,3)):
                open(w.root+a.path+"/"+x,"wb").write(bytes(r.choice([0,189,190,191,300])))
            if r.random()<.1: os.makedirs(w.root+a.path+"/5.msg.d",exist_ok=True); 
        else:
            b=w.root+a.path; os.makedirs(os.path.dirname(b),exist_ok=True); jam_new(b,basenum=r.choice([1,1,0,5,0xfffff000]))
            for i in range(n): jam_add(b,g.name(),g.name(),g.subj(),g.body(g.token(),False),attr=r.choice([0,1,0x40,r.getrandbits(32)]),written=r.choice([t,t-86400*50,0,2**32-1]),oaddr=r.choice([None,b"2:1/1"]),msgid=r.choice([None,b"x",b"2:1/1 1234"]),reply=r.choice([None,b"x"]),deleted=r.random()<.1)
            for e in("jhr","jdt","jdx","jlr"):
                if r.random()<.35: H.corrupt_file(r,b+"."+e)
                elif r.random()<.05: os.unlink(b+"."+e)
def t_crashmaint(r,g,c,w,o):
    for a in c.areas:
        if r.random()<.7: a.keepnum=r.choice([0,1,3,10,2**31-1,2**32-1])
        if r.random()<.6: a.keepdays=r.choice([0,1,30,99999,2**31])
    if r.random()<.35: hcfg(r,g,c,w)
    else: w.cfg=c; w.setup(); 
    bases(r,g,c,w); j=[]
    for _ in range(2):
        a=[x for x in("MAINT","PACK","VERBOSE") if r.random()<.7]+["SETTINGS","cm.prefs"]+(["PATTERN",r.choice([b"*",arg(r)])] if r.random()<.3 else [])
        if r.random()<.07: a=[arg(r) for _ in range(r.randint(0,4))]
        j.append(("crashmaint",a,{"CMV_TIME":str(1780000000+r.choice([0,86400*20,86400*4000]))}))
    return j
def t_crashstats(r,g,c,w,o):
    na,nn=r.choice([0,1,3,30]),r.choice([0,1,3,30]); day=1780000000//86400
    x=lambda: r.choice([0,1,5,10**6,2**31-1,2**32-1,r.getrandbits(32)])
    b=None
    w.cfg=c; c.statsfile="cm.stats" if hasattr(c,"statsfile") else None
    w.setup()
    for i in range(2): 
        m=[(n.addr,g.echo(c,n.addr,by(r.choice(c.areas).tag))[0]) for n in c.nodes]; f=[]; deliver(g,c,f,m,bundle=0)
        for q,y in f: w.put(q,y)
    w.cm("TOSS"); fs=[f for f in os.listdir(w.root) if "stats" in f]
    p=w.root+"cm.stats"
    if fs and r.random()<.9: 
        if fs[0]!="cm.stats": os.rename(w.root+fs[0],p)
        for _ in range(r.choice([0,1,1,3])): H.corrupt_file(r,p)
    else: open(p,"wb").write(bytes(r.getrandbits(8) for _ in range(r.choice([0,3,4,100,5000]))))
    o.count("statistics files of the tosser",len(fs))
    j=[]
    for _ in range(4):
        a=["cm.stats"]+(["SORT",r.choice([b"a",b"t",b"m",b"d",b"l",b"u",b"z",b"",arg(r)])] if r.random()<.6 else [])+[y for y in("LAST7","NOAREAS","NONODES") if r.random()<.3]+(["GROUP",r.choice([b"A",b"",arg(r)])] if r.random()<.4 else [])
        if r.random()<.07: a=[arg(r) for _ in range(r.randint(0,4))]
        j.append(("crashstats",a,None))
    j.append(("crashmail",["SETTINGS",w.root+"cm.prefs","SCAN"],None))
    return j
def t_crashwrite(r,g,c,w,o):
    j=[]
    for i in range(5):
        k=r.random()
        b=b"".join(J(r)+r.choice([b"\n",b"\r\n",b"\r",b""]) for _ in range(r.choice([0,1,5,50])))
        if k<.15: b=b"x"*r.choice([998,999,1000,1001,1999,2000,10000,70000])+r.choice([b"",b"\n"])
        elif k<.25: b=bytes(r.getrandbits(8) for _ in range(r.choice([1,500,3000])))
        elif k<.3: b=b"\n"*5000
        open(w.root+"t%d"%i,"wb").write(b)
        a=[]
        for kw in("FROMNAME","TONAME","SUBJECT","AREA","ORIGIN","PASSWORD"):
            if r.random()<.5: a+=[kw,arg(r)]
        bad=r.random()<.4
        for kw in("FROMADDR","TOADDR","PKTFROMADDR","PKTTOADDR"):
            if r.random()<.5: a+=[kw,H.addr(r).replace(b"\0",b"") if bad else str(g.addr())]
        a+=["DIR",w.root+"in" if r.random()<.85 else r.choice([b"",b"nosuch",w.root+"cm.prefs",b"x"*r.choice([90,99,100,101,150,200,1000]),by(w.root)+b"in/"+b"./"*r.choice([20,40,60,90,300])])]
        if r.random()<.9: a+=["TEXT",w.root+"t%d"%i if r.random()<.9 else r.choice([b"nosuch",by(w.root)+b"in",b"x"*300,b""])]
        for kw in("NOMSGID","FILEATTACH"):
            if r.random()<.3: a.append(kw)
        if r.random()<.05: a=[arg(r) for _ in range(r.randint(0,6))]
        if r.random()<.05: a=a[:-1]
        j.append(("crashwrite",a,None))
    return j
def t_crashmail(r,g,c,w,o):
    """the tosser on any configuration and any arguments"""
    hcfg(r,g,c,w)
    if r.random()<.5: bases(r,g,c,w,False)
    for i in range(r.choice([0,1,2])): w.put("%08x.pkt"%r.getrandbits(32),H.packet(r,g,c))
    j=[]
    # more configurations: one change each
    w.cfg=c; good=c.text(w.root).replace(w.root,"").encode("latin1"); K=good.split(b"\n")
    for i in range(5):
        L=list(K); k=r.random(); n=r.randrange(len(L))
        if k<.2: L.insert(n,by(r.choice(EXTRA)))
        elif k<.6: L.insert(n,kwline(r))
        elif k<.85:
            x=L[n].split(b" "); y=r.randrange(len(x)); x[y]=r.choice([b'""',J(r),b'"'+J(r)+b'"',H.addr(r),H.num(r),b'"'+b"x"*r.choice([34,35,36,79,80,81,99,100,101,199,200,201,399,400,401,1000])+b'"']); L[n]=b" ".join(x)
        elif k<.9: L[n]=b" ".join(L[n].split(b" ")[:r.randint(0,4)])
        else: L[n]+=b" "+r.choice([J(r),b'""',H.addr(r),b'"'+J(r,200)+b'"'])
        open(w.root+"c%d"%i,"wb").write(b"\n".join(L)); j.append(("crashmail",["SETTINGS","c%d"%i,"SCAN"],None))
    for _ in range(2):
        k=r.random()
        a=["SETTINGS","cm.prefs"]
        if k<.4: a.append("TOSS")
        elif k<.6: a.append("SCAN")
        else:
            t=lambda: by(r.choice([x.tag for x in c.areas])) if r.random()<.5 else arg(r)
            n=lambda: by(str(r.choice(c.nodes).addr)) if r.random()<.5 else arg(r)
            a+=r.choice([["SCANAREA",t()],["SCANLIST","list"],["SCANDOTJAM","list"],["TOSSFILE",r.choice([b"in/x.pkt",arg(r)])],["TOSSDIR",r.choice([b"in",arg(r)])],["RESCAN",t(),"RESCANNODE",n()],["RESCAN",t(),"RESCANNODE",n(),"RESCANMAX",H.num(r)],["SENDQUERY",n()],["SENDLIST",n()],["SENDUNLINKED",n()],["SENDHELP",n()],["SENDINFO",n()],["REMOVE",t()],["VERSION"],["UNLOCK"],["VERSION","NOSECURITY"],[arg(r)],["SCAN","TOSS"],["SETTINGS",arg(r)]])
        if "list" in a: open(w.root+"list","wb").write(b"\n".join([by(x.tag) for x in c.areas]+[J(r) for _ in range(3)]+[b"x"*r.choice([79,80,199,200,500,5000])])+r.choice([b"",b"\n"]))
        if r.random()<.1: a.append("NOSECURITY")
        j.append(("crashmail",a,None))
    return j
