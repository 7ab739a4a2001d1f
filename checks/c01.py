"""C01: hostile mail never corrupts memory, crashes or hangs a run."""
import random,struct
from tossck import *
import hostile as H
from cfg import Area,Aka
PROP="C01"; LEVEL="exploration"; KINDS=("asan","msan")
RULE="a case is a random accepted configuration (areas, filters, robot, bounces, message base options) fed hostile packets, bundles, requests and damaged message bases over several commands under AddressSanitizer and UBSan; distinct = distinct (commands, log message kinds reached) combinations"
def cases(tier,seed):
    n=2400 if tier=="quick" else 40000
    return [{"seed":seed*1000003+i} for i in range(n)]
EXPR=['TONAME="*o*"','FROMNAME=J*','SUBJECT|re','SUBJECT="*"','AREA=FIDO*','TYPE=NETMAIL','TYPE=ECHOMAIL','SOURCE=TOSSED','SOURCE=EXPORTED','SOURCE=CRASHMAIL','FROMADDR="*:*/*.*"','TOADDR="2:200/*.*"','TEXT|abc','TEXT|"y"','TEXT|"a nice bbs"','KLUDGES|MSGID','KLUDGES|"PID: "','FILEATTACH','TOLOCALAKA','FROMLOCALAKA=FALSE','TOLOCALPOINT','FROMLOCALPOINT','EXISTSCFG_FROMADDR','EXISTSCFG_FROMBOSS','EXISTSCFG_TOADDR=FALSE','EXISTSCFG_TOBOSS']
def expr(r,d=0):
    k=r.random()
    if d>2 or k<.45: return r.choice(EXPR)
    if k<.6: return "NOT "+expr(r,d+1)
    if k<.85: return expr(r,d+1)+r.choice([" AND "," OR "," and "," or "])+expr(r,d+1)
    return "("+expr(r,d+1)+r.choice([" AND "," OR "])+expr(r,d+1)+")"
def filters(r,c):
    out=[]
    for _ in range(r.randint(1,4)):
        cm=[]
        for _ in range(r.randint(1,3)):
            k=r.randrange(10)
            cm.append(['KILL','TWIT','COPY LOCALCOPY','WRITELOG "%a %f %o %t %d %s %x %%"','WRITEBAD "bad: %s"','BOUNCEMSG "no %t at %d, %s %a"','BOUNCEHEADER "%f %o %x"','REMAPMSG "%s" %s'%(r.choice(["*","New Name","N"*35]),r.choice(["2:200/*.*","1:*/*.*","3:2/1"])),'MASQUERADE "%s" %s'%(r.choice(["*","New Name","N"*35]),r.choice(["2:200/*.*","*:*/*.*","3:2/1.*"])),'EXECUTE "true %s"'%r.choice(["%r","%R","%m","%r %m"])][k])
        out.append((expr(r),cm))
    return out
SW=("STRIPRE FORCEINTL BOUNCEHEADERONLY REMOVEWHENFEED INCLUDEFORWARD NOMAXOUTBOUNDZONE ALLOWKILLSENT FLOWCRLF NOEXPORTNETMAIL NOROUTE ANSWERRECEIPT ANSWERAUDIT CHECKSEENBY CHECKPKTDEST PATH3D IMPORTEMPTYNETMAIL IMPORTAREAFIX AREAFIXREMOVE NODIRECTATTACH BOUNCEPOINTS IMPORTSEENBY WEEKDAYNAMING ADDTID ALLOWRESCAN FORWARDPASSTHRU MSG_HIGHWATER MSG_WRITEBACK JAM_HIGHWATER JAM_LINK JAM_QUICKLINK").split()
def config(r,g):
    c=g.cfg(nnodes=r.randint(1,6),switches=[x for x in SW if r.random()<.3])
    c.dupemode=r.choice(["BAD","KILL","IGNORE"]); c.loopmode=r.choice(["IGNORE","LOG","LOG+BAD"]); c.dupesize=r.choice([1,5,200])
    c.sysop=r.choice(["Test Sysop","S"*35,"x"])
    for n in c.nodes:
        for x in("NOTIFY","FORWARDREQ","SENDAREAFIX","SENDTEXT"):
            if r.random()<.3: n.flags.add(x)
        if r.random()<.7: n.afinfo=(r.choice(["pw","SECRET","x"*30]),r.choice(["","A","ABCD"]),r.choice(["","B"]),r.choice(["","C"]))
        if r.random()<.4: n.defgroup=r.choice("ABC")
        if r.random()<.4: n.raf=("Remote AF","pw") if r.random()<.5 else ("R"*35,"p"*60,1)
        if r.random()<.4: n.rsysop=r.choice(["Their Sysop","T"*35])
    for a in c.areas:
        if a.kind=="ECHO":
            if r.random()<.5: a.group=r.choice("ABC")
            if r.random()<.4: a.desc=r.choice(["A fine area","D"*75])
            if r.random()<.1: a.flags.add("MANDATORY")
            if r.random()<.1: a.flags.add("DEFREADONLY")
            if r.random()<.1: a.unconf=True
            if r.random()<.1: a.banned=[r.choice(c.nodes).addr]
    c.groupnames={"A":"Group A","B":"B"*75}
    c.areas.append(Area("LOCALCOPY",c.akas[0].addr,"LOCAL",r.choice(["MSG","JAM"]),"ar/lc"))
    if r.random()<.6:
        c.areas.append(Area("DEFAULT"+r.choice(["","_A","_B"]),c.akas[0].addr,"DEFAULT",*r.choice([("MSG","ar/%l"),("JAM","ar/%a"),("JAM","ar/%8"),("MSG","ar/%8"),("MSG","ar/%a")])))
    if r.random()<.4: c.bounces=r.sample(["*:*/*.*","2:200/*.*","1:*/*.0","2:*/*.*"],2)
    if r.random()<.4: c.fileattach=["*:*/*.*"]
    if r.random()<.5: c.changes=[("*","*:*/*.*",r.choice(["HOLD","CRASH","DIRECT","NORMAL"]))]
    if r.random()<.3: c.routes=[(r.choice(["2:*/*.*","*:200/*.*","1:*/*.0"]),r.choice(["2:*/*.*","*:*/*.0","2:204/0.0"]),c.akas[0].addr)]+c.routes[:r.randint(0,1)]
    if r.random()<.6: c.filters=filters(r,c)
    if r.random()<.2: c.maxpkt=r.choice([1,5])
    if r.random()<.3: c.maxbundle=r.choice([1,5])
    if r.random()<.2: c.jam_maxopen=r.choice([1,2])
    c.afmaxlines=r.choice([0,5,100]); c.helpfile="help.txt" if r.random()<.5 else None
    for n in c.nodes[:1]:
        if r.random()<.5: c.arealists.append('%s "@ROOT@list.txt" %s%s'%(n.addr,r.choice(["","GROUP A "]),r.choice(["FORWARD","DESC","FORWARD DESC"])))
    return c
SIGRE=re.compile(r"[0-9]+|\"[^\"]*\"")
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); c=config(r,g)
    kind="msan" if case["seed"]%3==2 else "asan"; o.count("cases with the %s build"%kind)
    w=World(ctx.base,kind,ctx.bins,c); w.timeout=ctx.timeout*2
    c.arealists=[x.replace("@ROOT@",w.root) for x in c.arealists]
    w.setup()
    with open(w.root+"list.txt","wb") as f:
        for _ in range(r.choice([0,3,30])): f.write(r.choice([b"AREA.%d Some description"%r.randint(0,99),by(r.choice(["FIDO.TEST","echo_2","NEWAREA"])),H.junk(r),b""])+r.choice([b"\r\n",b"\n"]))
    with open(w.root+"help.txt","wb") as f: f.write(b"This is the help\n"*r.choice([0,1,50])+H.junk(r))
    ops=[]; loc=[a for a in c.areas if a.base and a.kind in("ECHO","NETMAIL")]
    for step in range(r.choice([1,1,2,3])):
        k=r.random()
        if k<.72:
            for _ in range(r.choice([1,2,4])):
                b=H.packet(r,g,c); o.count("packets"); o.count("bytes",len(b))
                if r.random()<.2:
                    w.put(g.arcname(),H.mutate(r,arc_pack([(g.pktname(),b),(r.choice([g.pktname(),"x"*60+".pkt","a.pkt","noext"]),H.packet(r,g,c))])))
                else: w.put(g.pktname() if r.random()<.95 else lat(H.junk(r,r.randint(1,8)).replace(b"/",b"_").replace(b"\0",b"_"))+".pkt",b)
            if r.random()<.2: w.put("file.zip",b"data")
            if r.random()<.3 and loc:
                for _ in range(3): damage(r,w,r.choice(loc))
            args=["TOSS"]+(["NOSECURITY"] if r.random()<.1 else [])+(["SCAN"] if r.random()<.1 else [])
        elif k<.86 and loc:
            for _ in range(r.randint(1,4)): wl(g,w,r.choice(loc),c,text=r.choice([None,H.text(r,g,["X"])]),dest=r.choice(c.nodes).addr)
            if r.random()<.5: damage(r,w,r.choice(loc))
            args=["SCAN"] if r.random()<.6 else ["SCANAREA",r.choice(loc).tag]
        elif k<.93 and loc:
            a=r.choice(loc)
            args=["RESCAN",a.tag,"RESCANNODE",str(r.choice(c.nodes).addr)]+(["RESCANMAX",r.choice([1,5,99999])] if r.random()<.4 else [])
        else:
            args=[r.choice(["SENDQUERY","SENDLIST","SENDUNLINKED","SENDHELP","SENDINFO"]),r.choice(["ALL",str(r.choice(c.nodes).addr)])] if r.random()<.7 else ["REMOVE",r.choice([a.tag for a in c.areas])]
        ops.append(args[0])
        x=w.cm(*args)
        d=[]
        if not runstate(x,d):
            for _,sg,m in d: o.bad(sg,m)
            w.close(); return
        if x.rc not in(0,5,10,20): o.bad("rc","%s returned %d: %s"%(args,x.rc,x.text[-500:]))
        o.count("runs")
    L=set(SIGRE.sub("#",l[20:])[:60] for l in w.log().split("\n"))
    kinds=sorted(set(re.sub(r"[^A-Za-z ]","",x)[:25] for x in L))
    o.count("log message kinds seen per case, summed",len(kinds))
    o.key(ops,kinds)
    if case["seed"]%400==1: o.sample={"ops":ops,"filters":c.filters[:1],"switches":sorted(c.switches)[:6]}
    w.close()
def wl(*a,**k):
    try: write_local(*a,**k)
    except (struct.error,ValueError,IndexError): pass   # base already damaged
def damage(r,w,a):
    p=w.root+a.path
    if a.base=="JAM":
        e=r.choice([".jhr",".jdx",".jdt",".jlr",".cmhw"])
        if os.path.exists(p+e): H.corrupt_file(r,p+e)
    elif os.path.isdir(p):
        l=os.listdir(p)
        if l: H.corrupt_file(r,p+"/"+r.choice(l))
        if r.random()<.2: open(p+"/"+r.choice(["x.msg","70000.msg","0.msg","-1.msg","7.MSG","2.msg"]),"wb").write(H.junk(r))
