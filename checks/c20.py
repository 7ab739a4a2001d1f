"""C20: the command line writer."""
import random,subprocess,re,time
from tossck import *
from world import T0
from gen import NAMES
TOKRE=re.compile(rb"<<t\d+>>")
PROP="C20"; LEVEL="exploration"
RULE="a case is one of: random options and texts written and compared field by field, then tossed and compared with the model; several writers started at once in one directory; a writer with every system call made to fail or killed there. distinct = distinct (options used, text form, cut fields, outcome) combinations"
ASSUME=["text files contain no NUL bytes","the area tag is at most 79 characters long"]
CATS=("*",)
def cases(tier,seed):
    n=6000 if tier=="quick" else 80000
    return [{"seed":seed*1000003+i} for i in range(n)]
def conv(t):
    t=t.replace(b"\r\n",b"\n").replace(b"\n",b"\r")
    if t and t[-1:]!=b"\r": t+=b"\r"
    return t
def string(r,mx):
    k=r.random()
    if k<.5: return r.choice(NAMES)[:mx]
    n=r.choice([0,1,5,mx-1,mx,mx+1,mx*2,300])
    return bytes(r.choice(b"abcdefgh %s%n/\\,.-\xe5\xf6\xff\"'") for _ in range(n))
def text(r,g):
    """-> (file content, token)"""
    tok=g.token(); L=[]
    for _ in range(r.choice([0,1,3,10,60])):
        n=r.choice([0,1,10,60,79,80,96,97,98,99,100,101,196,197,198,199,200,r.randint(0,400)])
        L.append(g.safe(bytes(r.choice(b"abcdefghij kl.,-\xe5%") for _ in range(n))))
    L.insert(r.randint(0,len(L)),tok)
    nl=r.choice([b"\n",b"\n",b"\r\n",b"\r\n",b"\r"])
    t=nl.join(L)+(nl if r.random()<.7 else b"")
    if r.random()<.1: t+=nl*r.randint(1,4)
    if r.random()<.05: t=t.replace(nl,b"\r\n",1)
    return t,tok
def options(r,g,c):
    o={}
    A_=lambda: r.choice([n.addr for n in c.nodes]+[k.addr for k in c.akas]+[g.addr()])
    if r.random()<.9: o["FROMADDR"]=A_()
    if r.random()<.9: o["TOADDR"]=A_()
    if r.random()<.5: o["PKTFROMADDR"]=A_()
    if r.random()<.5: o["PKTTOADDR"]=A_()
    if r.random()<.6: o["FROMNAME"]=string(r,35)
    if r.random()<.6: o["TONAME"]=string(r,35)
    if r.random()<.6: o["SUBJECT"]=string(r,71)
    if r.random()<.5: o["ORIGIN"]=string(r,79)
    if r.random()<.5: o["AREA"]=by(r.choice([a.tag for a in c.areas if a.kind=="ECHO"]+["UNKNOWN","x"*79]))
    if r.random()<.4: o["PASSWORD"]=string(r,8)
    if r.random()<.2: o["NOMSGID"]=1
    if r.random()<.15: o["FILEATTACH"]=1
    return o
def argv(r,o):
    l=[]; k=list(o); r.shuffle(k)
    for x in k:
        q=x if r.random()<.8 else x.lower()
        if o[x]==1: l.append(q)
        else: l+=[q,o[x] if isinstance(o[x],(bytes,str)) else (str(o[x]) if r.random()<.5 or o[x].p else o[x].s3())]
    return l
Z=A(0,0,0,0)
def verify(d,o,b,tx,now):
    def bad(k,got,exp): d.append(("write","write:"+k,"%s is %r, expected %r (options %s)"%(k,got,exp,o)))
    try: k=parse_pkt(b)
    except Exception as e: d.append(("write","write:packet","packet cannot be read: %r (options %s)"%(e,o))); return
    fr=o.get("FROMADDR",Z); to=o.get("TOADDR",Z); pf=o.get("PKTFROMADDR",fr); pt=o.get("PKTTOADDR",to)
    if k.orig!=pf: bad("packet origin",k.orig,pf)
    if k.dest!=pt: bad("packet destination",k.dest,pt)
    if k.qz!=(pf.z,pt.z): bad("packet zones",k.qz,(pf.z,pt.z))
    pw=o.get("PASSWORD",b"")[:8].ljust(8,b"\0")
    if k.pw!=pw: bad("packet password",k.pw,pw)
    x=time.gmtime(now)
    if k.tm!=(x[0],x[1]-1,x[2],x[3],x[4],x[5]): bad("packet time",k.tm,x[:6])
    if len(k.msgs)!=1: bad("number of messages",len(k.msgs),1); return
    m=k.msgs[0]
    if (m.onet,m.onode,m.dnet,m.dnode)!=(fr.n,fr.f,to.n,to.f): bad("message addresses",(m.onet,m.onode,m.dnet,m.dnode),(fr.n,fr.f,to.n,to.f))
    at=(0 if "AREA" in o else PVT)|(ATTACH if "FILEATTACH" in o else 0)
    if m.attr!=at: bad("attributes",m.attr,at)
    for f,v,df,mx in(("frm","FROMNAME",b"CrashWrite",35),("to","TONAME",b"All",35),("subj","SUBJECT",b"Information",71)):
        e=o.get(v,df)[:mx]
        if getattr(m,f)!=e: bad(v,getattr(m,f),e)
    dt=by("%02d %s %02d  %02d:%02d:%02d"%(x[2],time.strftime("%b",x),x[0]%100,x[3],x[4],x[5]))
    if m.date!=dt: bad("date",m.date,dt)
    f4=b"%d:%d/%d.%d"%fr
    if "AREA" in o: p=b"AREA:"+o["AREA"]+b"\r"
    else:
        p=(b"\x01FMPT %d\r"%fr.p if fr.p else b"")+(b"\x01TOPT %d\r"%to.p if to.p else b"")+b"\x01INTL %d:%d/%d %d:%d/%d\r"%(to[:3]+fr[:3])
    t=m.text
    if not t.startswith(p): bad("control lines",t[:len(p)+20],p); return
    t=t[len(p):]
    q=re.match(rb"\x01MSGID: "+re.escape(f4)+rb" [0-9a-f]{8}\r",t)
    if ("NOMSGID" not in o)!=bool(q): bad("MSGID",t[:60],"one of "+lat(f4) if "NOMSGID" not in o else "none"); return
    if q: t=t[q.end():]
    if "AREA" in o:
        e=rb"--- CrashWrite[^\r]*\r \* Origin: "+re.escape(o.get("ORIGIN",b"Another user of CrashMail II")[:79])+rb" \("+re.escape(f4)+rb"\)\r$"
        q=None
        for q in re.finditer(e,t): pass
        if not q: bad("tear and origin line",t[-160:],lat(e)); return
        t=t[:q.start()]
    if t!=conv(tx): bad("text",t[:300],conv(tx)[:300])
    return q
def one(r,g,c,t,d,o):
    w=t.w; op=options(r,g,c); tx,tok=text(r,g)
    if r.random()<.1: tx=b""; tf=r.random()<.5
    else: tf=True
    if tf:
        with open(w.root+"t.txt","wb") as f: f.write(tx)
        op["TEXT"]=by(w.root+"t.txt")
    dr=r.choice([w.root+"in","in","in/"]); op["DIR"]=by(dr)
    before=read_tree(w.root+"in")
    res=w.run("crashwrite",*argv(r,op)); o.count("written")
    if not runstate(res,d): return
    if res.rc!=0: d.append(("write","write:rc","crashwrite %s returned %d: %s"%(op,res.rc,res.text[-300:]))); return
    after=read_tree(w.root+"in"); new=sorted(set(after)-set(before))
    if {k:after.get(k) for k in before}!=before: d.append(("write","write:others","existing files were changed")); return
    if len(new)!=1 or not re.fullmatch(r"[0-9a-f]{8}\.pkt",new[0]): d.append(("write","write:file","new files %s, expected one packet"%new)); return
    now=w.now
    verify(d,op,after[new[0]],tx,now)
    w.seq+=1; os.utime(w.root+"in/"+new[0],(T0+w.seq,)*2); t.files.append((new[0],after[new[0]]))
    o.key(sorted(op),len(op.get("SUBJECT",b""))>71,len(op.get("FROMNAME",b""))>35,b"\r\n" in tx,tx[-1:]==b"\n",min(len(tx),2000)//100)
    return op
def parallel(r,g,c,w,d,o):
    n=r.choice([2,3,5,8,12]); P=[]; exp={}
    same=r.random()<.7
    before=read_tree(w.root+"in")
    for i in range(n):
        op=options(r,g,c); tx,tok=text(r,g)
        with open(w.root+"t%d.txt"%i,"wb") as f: f.write(tx)
        op["TEXT"]=by(w.root+"t%d.txt"%i); op["DIR"]=b"in"; exp[tok]=(op,tx)
        e=dict(w.env0); now=w.now+(0 if same else i//2); e["CMV_TIME"]=str(now)
        P.append((subprocess.Popen([os.path.join(w.bins,"crashwrite")]+[x if isinstance(x,bytes) else by(str(x)) for x in argv(r,op)],cwd=w.root,env=e,stdout=subprocess.DEVNULL,stderr=subprocess.STDOUT),tok,now))
    nows={}
    for p,tok,now in P:
        if p.wait()!=0: d.append(("write","par:rc","one of %d writers returned %d"%(n,p.returncode)))
        nows[tok]=now
    after=read_tree(w.root+"in"); new=[k for k in after if k not in before]
    for k in new:
        if not re.fullmatch(r"[0-9a-f]{8}\.pkt",k): d.append(("write","par:file","unexpected file %s"%k)); continue
        x=TOKRE.findall(after[k])
        if len(set(x))!=1 or x[0] not in exp: d.append(("write","par:mixed","packet %s has texts of %s"%(k,x))); continue
        op,tx=exp.pop(x[0]); verify(d,op,after[k],tx,nows[x[0]]); o.count("written at once")
    if exp: d.append(("write","par:lost","%d of %d messages written at once are not there (%s)"%(len(exp),n,sorted(new))))
    o.key("par",n,same)
def faults(r,g,c,w,d,o):
    op=options(r,g,c); tx,tok=text(r,g)
    if r.random()<.3: tx+=b"x"*9000+b"\n"
    with open(w.root+"t.txt","wb") as f: f.write(tx)
    op["TEXT"]=by(w.root+"t.txt"); op["DIR"]=b"in"; a=argv(r,op)
    if r.random()<.1:
        op["TEXT"]=by(w.root+"nosuch"); a=argv(r,op); x=w.run("crashwrite",*a)
        if runstate(x,d) and (x.rc==0 or read_tree(w.root+"in")): d.append(("write","fault:notext","text file missing: returned %d, files %s"%(x.rc,sorted(read_tree(w.root+"in"))))); 
        o.key("notext"); return
    x=w.inj("count",0,0,*a,tool="crashwrite"); n=len(x.changes)
    for f in os.listdir(w.root+"in"): os.unlink(w.root+"in/"+f)
    for i in range(1,n+1):
        for mode in("kill","tear","fail","full","short"):
            y=w.inj(mode,i,28,*a,tool="crashwrite"); o.count("faults:"+mode)
            if mode in("fail","full","short"):
                if not runstate(y,d): return
            fs=read_tree(w.root+"in"); pk=[k for k in fs if k.lower().endswith(".pkt")]
            where="%s at %s"%(mode,x.changes[i-1])
            for k in pk: verify(d,op,fs[k],tx,w.now)
            if mode in("fail","full","short") and not y.killed:
                ok=y.rc==0
                if ok and len(pk)!=1: d.append(("write","fault:silent","%s: the writer reported success but wrote %s"%(where,sorted(fs))))
                if not ok and pk: d.append(("write","fault:left","%s: the writer reported an error but left %s"%(where,pk)))
            for k in fs: os.unlink(w.root+"in/"+k)
            if d: return
            o.key("fault",mode,x.changes[i-1][0],len(pk))
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); d=[]
    c=g.cfg(nnodes=r.randint(1,3),nareas=r.randint(1,2),pw=False); c.dupemode=r.choice(["KILL","BAD","IGNORE"]); c.loopmode="IGNORE"
    for a in c.areas: a.tag=a.tag[:79]
    t=Toss(ctx,c); t.files=[]; w=t.w
    k=r.random()
    if k<.12: parallel(r,g,c,w,d,o)
    elif k<.2: faults(r,g,c,w,d,o)
    else:
        ops=[one(r,g,c,t,d,o) for _ in range(r.choice([1,1,2,4]))]
        # attached files and unusable addresses are the toss checks' business
        if not d and not any(x and ("FILEATTACH" in x or x.get("TONAME",b"").lower()==b"areafix" or "FROMADDR" not in x or "TOADDR" not in x) for x in ops):
            t.run(d,nosec=True); o.count("tossed")
    select(d,CATS,o)
    if case["seed"]%500==3: o.sample={"files":[n for n,_ in t.files][:4]}
    t.close()
