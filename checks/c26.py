"""C26: bounces, receipts, audits and loops are answered once and truthfully; attached files go with their message."""
import random,shutil
from tossck import *
from cfg import Node
import nlgen
from c18 import lists,near
PROP="C26"; LEVEL="exploration"
RULE="a case is a history of tossed and scanned netmail (unknown systems, points, attachments, receipt and audit requests, looped mail) under random nodelists, bounce patterns and switches; every generated reply, forwarded copy, stored copy, attached file and flow entry is compared with the model; distinct = distinct (events, switches, modes) combinations"
ASSUME=["one attached file is named by one message","a reply is a new message of this system: its date and version text are not compared"]
CATS=("*",)
def cases(tier,seed):
    n=4000 if tier=="quick" else 30000
    return [{"seed":seed*1000003+i} for i in range(n)]
NM=["file%d.zip","Photo%d.JPG","x%d","dir/f%d.txt","c:\\mail\\f%d.arj","/etc/f%d","../f%d","a/../../f%d","f%d.tar.gz","^f%d"]
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    c=g.cfg(nnodes=r.randint(2,6),nareas=r.randint(0,1),switches=[x for x in("BOUNCEPOINTS","BOUNCEHEADERONLY","ANSWERRECEIPT","ANSWERAUDIT","NODIRECTATTACH","IMPORTEMPTYNETMAIL","FORCEINTL","ADDTID","NOROUTE","STRIPRE","ALLOWKILLSENT") if r.random()<.45 and (x!="NOROUTE" or r.random()<.2)])
    c.loopmode=r.choice(["IGNORE","LOG","LOG+BAD","LOG+BAD"]); c.sysop=r.choice(["Test Sysop","S","The Sysop of this nice sys"])
    for k in c.akas: k.domain=""
    nl=None; src=None
    if r.random()<.7:
        c.nodelist="nl"; w0=World(ctx.base,"plain",ctx.bins,c); src=w0.root+"nl"; os.mkdir(src); nl=lists(r,src)
    pool=[]
    if nl and nl.e: pool+=[near(r,nl) for _ in range(6)]
    k0=c.akas[0].addr
    pool+=[n.addr for n in c.nodes]+[g.addr() for _ in range(3)]+[k.addr for k in c.akas]+[A(*k.addr[:3],r.choice([1,2,99])) for k in c.akas]
    pool=[A(a.z or 2,a.n or 1,a.f,a.p) for a in pool]
    def pat():
        a=r.choice(pool); return r.choice(["%d:*/*.*"%a.z,"%d:%d/*.*"%a[:2],"%d:%d/%d.*"%a[:3],"%d:%d/%d.%d"%a,"*:*/*.0","*:*/*.*"])
    if nl and r.random()<.8: c.bounces=[pat() for _ in range(r.randint(1,3))]
    c.fileattach=[pat() for _ in range(r.randint(1,2))] if r.random()<.75 else []
    c.routes=[(pat(),r.choice(["*:*/*.*","NET","NODE",str(r.choice(c.nodes).addr)]),r.choice(c.akas).addr) for _ in range(r.randint(0,3))]
    if r.random()<.9: c.routes.append(("*:*/*.*",r.choice(["*:*/*.*","*:*/*.0",str(r.choice(c.nodes).addr)]),r.choice(c.akas).addr))
    if r.random()<.3: c.changes=[(r.choice(["*","NORMAL","DIRECT"]),pat(),r.choice(["CRASH","HOLD","NORMAL","DIRECT"]))]
    if r.random()<.3: c.nodes.append(Node(A(*k0[:3],77),packer="PK")) if k0.p!=77 and not any(n.addr==A(*k0[:3],77) for n in c.nodes) else None; pool.append(A(*k0[:3],77))
    t=Toss(ctx,c,nl=nl); t.files=[]; w=t.w; d=[]; nfile=0; nall=0
    if src:
        shutil.copytree(src,w.root+"nl"); w0.close()
        x=w.run("crashlist",w.root+"nl")
        if x.rc or x.sig: o.bad("compile","crashlist failed: "+x.text[:300])
    root=w.root
    os.mkdir(root+"files")
    def att():
        nonlocal nfile
        names=[]
        for _ in range(r.choice([1,1,1,2,3])):
            nfile+=1; names.append(r.choice(NM)%nfile)
            if r.random()<.2: nfile+=1; x=names[-1]; names.append(r.choice([x+"z",x+".asc",x[:-1] if len(base(x))>3 else x+"0q","q"+base(x)]))
        if r.random()<.1: names.append(r.choice([".","..","x/","/"]))
        r.shuffle(names)
        return names
    at_=Attach(t); fl=at_.fl; pk=at_.pk; local=at_.local; base=at_.base; before=at_.before
    loc=[a for a in c.areas if a.kind=="NETMAIL"]
    for step in range(r.choice([1,1,2,3])):
        dd=[]
        if r.random()<.7:
            at_.start("t"); ms=[]; files=[]
            for _ in range(r.randint(1,6)):
                n=r.choice(c.nodes).addr; og=r.choice(pool) if r.random()<.8 else n; de=r.choice(pool)
                at=r.choice([0,PVT,PVT|RREQ,PVT|AUDIT,RREQ|AUDIT,PVT|IRRR,g.attr()])&~ATTACH; kw={}
                if r.random()<.3:
                    at|=ATTACH; nn=att(); s=r.choice([" ",","," , "]).join(nn)
                    if len(s)>71: s=nn[0]
                    kw["subj"]=by(s)
                    for x in nn:
                        b=base(x)
                        if b in("",".",".."): continue
                        if r.random()<.85: files.append((b,b"attached "+by(b)))
                        if r.random()<.08 and b not in pk: pk[b]=b"older"; open(root+c.pktdir+"/"+b,"wb").write(b"older")
                ex=b""; body=None
                if r.random()<.15: body=r.choice([b"",b"\r",b"\x01Via 2:2/2 x\r",b"\n"])
                if r.random()<.3:
                    k=r.choice(c.akas).addr if r.random()<.7 else r.choice(pool)
                    z=by("\x01Via %s @20260101.120000 %s\r"%(k.s3() if r.random()<.7 else str(k),r.choice(["CrashMail II/Linux 0.7","CrashMail II/Linux 1.6","Squish 1.1","crashmail"])))
                    if body is None and r.random()<.6: body=g.body(g.token())+z
                    else: ex=z
                m,_=g.net(c,og,de,attr=at,intl=True,extra=ex,body=body,frm=r.choice([b"A User",b"X"*35,b"AreaFix2",b""]) if r.random()<.4 else None,**kw)
                ms.append((n,m))
            f=[]; deliver(g,c,f,ms); t.inbound(f+files); t.run(dd); o.count("tossed",len(ms))
        else:
            at_.start("s")
            for _ in range(r.randint(1,4)):
                a=r.choice(loc); at=LOCAL|r.choice([0,PVT,CRASH,HOLD,RREQ,AUDIT,RREQ|AUDIT,KILLSENT]); su=None
                if r.random()<.35:
                    at|=ATTACH; nfile+=1; p=root+"files/"+"l%d.zip"%nfile
                    if len(p)<=71:
                        su=by(p)
                        if r.random()<.85: open(p,"wb").write(b"local file %d"%nfile); local[p]=b"local file %d"%nfile
                    else: at&=~ATTACH
                t.local(g,a,attr=at,dest=r.choice(pool),orig=r.choice(c.akas).addr if r.random()<.8 else r.choice(pool),subj=su)
            t.exp_in={}
            # scan() compares by itself; expectations about attached files are formed after it
            t.scan(dd); before(dd); o.count("scans")
        dd=at_.known(dd)
        d+=dd
        if any(x[0]=="run" for x in dd): break
        at_.check(d)
        if d: break
        # the mailer takes everything
        for x in os.listdir(root):
            if x.split(".")[0]==c.outbound or x==c.pktdir: shutil.rmtree(root+x); 
        os.mkdir(root+c.outbound); os.mkdir(root+c.pktdir)
        t.sim.out.clear(); nall+=len(fl); fl.clear(); pk.clear()
    select(d,CATS,o)
    ev=sorted(set(str(e[0])+(":"+e[1] if e[0]=="auto" else "") for e in t.sim.events))
    for e in t.sim.events: o.count("event:"+str(e[0])+(":"+e[1] if e[0]=="auto" else ""))
    o.count("attached",nall+len(fl))
    o.key(ev,sorted(c.switches),c.loopmode,bool(nl),nall)
    if case["seed"]%200==1: o.sample={"events":[str(e) for e in t.sim.events[:6]],"switches":sorted(c.switches),"attached":[x[3].replace(root,"") for x in fl]}
    t.close()
