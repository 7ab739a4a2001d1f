"""C17: filters run exactly the commands whose expression is true."""
import random
from world import norm
from tossck import *
from filt import *
from cfg import Area
PROP="C17"; LEVEL="exploration"
RULE="a case is a random list of filters (nested expressions over every variable, every command) applied to tossed, scanned and generated messages; distinct = distinct (filter results over the batch, commands executed) combinations"
ASSUME=["message files handed to EXECUTE are written under /tmp by the C library's tmpnam","lines of up to 198 characters, addresses in Origin lines in the last brackets"]
CATS=("*",)
REC="""#!/bin/sh
# rec RC LOG DIR args...   (a trailing @m=file / @r=file argument is copied)
rc=$1; shift
n=$(ls DIR | wc -l)
mkdir DIR/$n
for x in "$@"; do
 case "$x" in
 @m=*) cp "${x#@m=}" DIR/$n/m;;
 @r=*) cp "${x#@r=}" DIR/$n/r;;
 @R=*) cp "${x#@R=}" DIR/$n/R;;
 *) printf '%s\\n' "$x" >>DIR/$n/args;;
 esac
done
[ -f DIR.rc ] && exit $(cat DIR.rc)
exit $rc
"""
def cases(tier,seed):
    n=8000 if tier=="quick" else 60000
    return [{"seed":seed*1000003+i} for i in range(n)]
def commands(r,g,c,pool,w,masq):
    out=[]
    for _ in range(r.choice([1,1,2,3])):
        k=r.choice(["KILL","TWIT","COPY","WRITELOG","WRITELOG","WRITEBAD","BOUNCEMSG","BOUNCEHEADER","REMAPMSG","EXECUTE"]+(["MASQUERADE"]*2 if masq else []))
        if k in("KILL","TWIT"): out.append((k,))
        elif k=="COPY": out.append((k,r.choice(["LC1","lc2"])))
        elif k=="WRITELOG": g.wl+=1; out.append((k,"WL%d:"%g.wl+" ".join(r.sample(["%a","%f","%o","%t","%d","%s","%x","%%","text","<%s>"],r.randint(1,6)))))
        elif k=="WRITEBAD": out.append((k,r.choice(["Not wanted","No %s here","x"])))
        elif k.startswith("BOUNCE"): out.append((k,r.choice(["No %t at %d","%f from %o: %s","Go away","%a %x %%"])))
        elif k in("REMAPMSG","MASQUERADE"):
            a=r.choice(pool)
            out.append((k,r.choice(["*","New Name","N"*35,"J\xf6n"]),r.choice([full(a),"%d:%d/*.*"%a[:2],"%d:%d/*.%d"%(a.z,a.n,r.randint(0,9)),"%d:*/*.%d"%(a.z,r.randint(0,9)),"%d:*/*.*"%a.z])))
        else: out.append((k,r.choice([0,10,10,5]),"".join(r.sample("aftodsx",r.randint(0,5)))+"".join(x for x in "mrR" if r.random()<.4)))
    return out
def line(w,cmd):
    q=lambda x:'"%s"'%x
    if cmd[0] in("REMAPMSG","MASQUERADE"): return "%s %s %s"%(cmd[0],q(cmd[1]),q(cmd[2]))
    if cmd[0]=="EXECUTE": return 'EXECUTE "%srec %d %s"'%(w.root,cmd[1]," ".join("@%s=%%%s"%(x,x) if x in "mrR" else "'%"+x+"'" for x in cmd[2]))
    return " ".join([cmd[0]]+[q(x) for x in cmd[1:]])
def text(g):
    r=g.r; t=g.token()
    L=[g.safe(bytes(r.choice(b"abcdefghij klmno.,;:-/%") for _ in range(r.choice([0,5,30,78])))) for _ in range(r.randint(0,5))]
    L.insert(r.randint(0,len(L)),t)
    for _ in range(r.choice([0,0,1,2])): L.insert(r.randint(0,len(L)),b"well "+r.choice(WORDS)+b" indeed")
    if r.random()<.1: L.append(b"aababcabcabcabd "*12)
    if r.random()<.05: L+=[b"fill %04d "%i+b"x"*60 for i in range(400)]+[b"the lottery"]
    return b"\r".join(L)+b"\r"
def kl(g,o=None):
    r=g.r; k=[]
    a=o or g.addr()
    if r.random()<.8: k.append(b"\x01MSGID: %s %08x\r"%(by(a.s3()),r.getrandbits(32)))
    if r.random()<.3: k.append(b"\x01REPLY: %s %08x\r"%(by(g.addr().s3()),r.getrandbits(32)))
    if r.random()<.2: k.append(b"\x01PID: GED+LNX 1.1.5\r")
    if r.random()<.2: k.append(b"\x01CHRS: LATIN-1 2\r")
    r.shuffle(k); return b"".join(k)
def nm(r): return r.choice(MATCHN)
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); g.wl=0
    c=g.cfg(nnodes=r.randint(2,5),nareas=r.choice([1,2,3]),switches=[x for x in("ADDTID","FORCEINTL","IMPORTSEENBY","BOUNCEPOINTS","ANSWERRECEIPT") if r.random()<.15])
    c.loopmode="IGNORE"; c.dupemode=r.choice(["BAD","KILL"])
    c.areas.append(Area("LC1",c.akas[0].addr,"LOCAL","MSG","ar/lc1")); c.areas.append(Area("LC2",c.akas[-1].addr,"LOCAL","JAM","ar/lc2"))
    for i,k in enumerate(c.akas):
        if r.random()<.3 and not k.domain: k.domain="othernet%d"%i
    pool=[n.addr for n in c.nodes]+[k.addr for k in c.akas]+[A(*k.addr[:3],r.randint(1,9)) for k in c.akas]+[g.addr() for _ in range(3)]
    t=Toss(ctx,c,simcls=FSim); t.files=[]; d=[]; w=t.w
    nasty=r.random()<.5
    flt=[]
    for _ in range(r.choice([1,1,2,3,5])):
        for _ in range(9):
            e=expr(r,pool,None); tx=render(e,r)
            if len(tx)<380: break
        else: continue
        cm=commands(r,g,c,pool,w,r.random()<.5)
        if len(flt) and r.random()<.8: cm=[x for x in cm if x[0] not in("BOUNCEMSG","BOUNCEHEADER")] or [("WRITELOG","WL0: %s")]
        flt.append((e,tx,cm))
    # a filter's own replies must not fill the base without end: only the model decides
    t.sim.flt=[(e,cm) for e,tx,cm in flt]
    c.filters=[(tx,[line(w,x) for x in cm]) for e,tx,cm in flt]
    with open(w.root+"rec","w") as f: f.write(REC.replace("DIR",w.root+"ex"))
    os.chmod(w.root+"rec",0o755); os.mkdir(w.root+"ex"); w.write_cfg()
    nets=[a for a in c.areas if a.kind=="NETMAIL"]; ech=[a for a in c.areas if a.kind=="ECHO"]
    for step in range(r.choice([1,2,2])):
        sc=[a for a in nets+ech if a.base]
        if r.random()<.3 and sc:
            for _ in range(r.randint(1,4)):
                a=r.choice(sc)
                tx=text(g)
                t.local(g,a,dest=r.choice(pool) if a.kind=="NETMAIL" else None,text=tx,tok=TOKRE.search(tx)[0],to=nm(r) or b"x",subj=r.choice(SUBJS),attr=LOCAL|(PVT if a.kind=="NETMAIL" else 0))
            t.scan(d); o.count("scanned",t.exported)
        else:
            ms=[]
            for _ in range(r.randint(1,7)):
                n=r.choice(c.nodes).addr
                if r.random()<.5 and ech:
                    a=r.choice(ech); og=r.choice(pool); x=text(g)
                    tx=b"AREA:"+by(a.tag)+b"\r"+kl(g,og)+x
                    if r.random()<.85: tx+=b" * Origin: "+r.choice([b"A BBS",b"(tm) foo"])+b" ("+by(og.s3())+b")\r"
                    tx+=g.sblines(sorted(set((r.randint(1,999),r.randint(1,999)) for _ in range(r.choice([0,1,5])))))+g.pathlines([(r.randint(1,999),r.randint(1,999)) for _ in range(r.choice([0,1,3]))])
                    m=mkmsg(n,r.choice(pool),g.attr()&~(RREQ|AUDIT|FREQ),g.date(),nm(r),nm(r),r.choice(SUBJS),tx)
                else:
                    og,de=r.choice(pool),r.choice(pool)
                    at=g.attr()&~(RREQ|AUDIT|FREQ)|(RREQ if r.random()<.1 else 0)
                    k=b""
                    if og.z!=de.z or r.random()<.5: k+=by("\x01INTL %d:%d/%d %d:%d/%d\r"%(de[:3]+og[:3]))
                    if og.p: k+=by("\x01FMPT %d\r"%og.p)
                    if de.p: k+=by("\x01TOPT %d\r"%de.p)
                    k+=kl(g,og)
                    v=by("\x01Via 2:5020/1 @20200101.000000 Foo\r") if r.random()<.2 else b""
                    m=mkmsg(og,de,at,g.date(),nm(r),nm(r),r.choice(SUBJS),k+text(g)+v)
                ms.append((n,m))
            f=[]; deliver(g,c,f,ms,bundle=.1); t.inbound(f)
            ab=r.random()<.15 and any(x[0]=="EXECUTE" for _,_,cm in flt for x in cm)
            if ab and not abort(t,d,o):
                t.close(); select(d,CATS,o); return
            t.run(d,nosec=r.random()<.06); o.count("tossed",len(ms))
        check_log(t,d); check_exec(t,d,o)
        if d: break
    select(d,CATS,o)
    o.count("filter matches",getattr(t.sim,"hits",0))
    for k,v in getattr(t.sim,"cmds",{}).items(): o.count("command:"+k,v)
    o.key([tx for e,tx,cm in flt],getattr(t.sim,"hits",0))
    if case["seed"]%300==1: o.sample={"filters":c.filters,"matches":getattr(t.sim,"hits",0)}
    t.close()
TOKRE=re.compile(rb"<<t\d+>>")
def abort(t,d,o):
    """every EXECUTE fails with 20: if one is reached the run stops and keeps the inbound; True: go on with a normal run"""
    import copy
    w=t.w; w.cm("TOSS") if False else None
    s2=copy.deepcopy(t.sim)
    # does the first message of the first file reach an EXECUTE?  only such batches are decided here
    s2.now=w.now; s2.ex=[]
    n=t.files
    if not n or not n[0][0].endswith(".pkt"): return True
    one=n[0]
    got=[]
    class Stop(Exception): pass
    def cmd(m,c,*a):
        if c=="EXECUTE": raise Stop
        got.append(c); type(s2).cmd(s2,m,c,*a)
    s2.cmd=cmd
    first=[]
    h=s2.handle
    def handle(m):
        first.append(1)
        if len(first)>1: raise StopIteration
        h(m)
    s2.handle=handle
    try: s2.toss_pkt(one[1]); return True
    except Stop: pass
    except StopIteration: return True
    if got: return True
    open(w.root+"ex.rc","w").write("20")
    ob0=len(w.outbound(t.cfg).pkts)
    before=read_tree(w.root+"in")
    r=w.cm("TOSS"); runstate(r,d)
    os.unlink(w.root+"ex.rc")
    if read_tree(w.root+"in")!=before: d.append(("abort","abort:inbound","inbound changed although an executed command asked to abort"))
    ob=w.outbound(t.cfg)
    if len(ob.pkts)!=ob0: d.append(("abort","abort:sent","mail was sent although an executed command asked to abort"))
    o.count("aborted runs")
    import shutil
    shutil.rmtree(w.root+"ex"); os.mkdir(w.root+"ex"); t.exn=0; t.sim.ex=[]
    for x in os.listdir(w.root+"tmp"): os.unlink(w.root+"tmp/"+x)
    t.logpos=len(w.log())
    return not d
def check_log(t,d):
    L=t.w.log(); p=getattr(t,"logpos",0); t.logpos=len(L)
    got=[by(m[0]) for m in re.finditer(r"(?m)WL\d+:.*$",L[p:].replace("\r","\\r"))]
    want=[x.replace(b"\r",b"\\r") for x in getattr(t.sim,"wl",[])]; t.sim.wl=[]
    if got!=want: d.append(("log","log:lines","logged %r, expected %r"%(got[:6],want[:6])))
def nows(b): return re.sub(rb"[ \n\r]+",b"",b)
def check_exec(t,d,o):
    n=getattr(t,"exn",0); ex=getattr(t.sim,"ex",[]); t.sim.ex=[]
    root=t.w.root+"ex/"
    got=len(os.listdir(root))-n; t.exn=n+got
    if got!=len(ex): d.append(("exec","exec:count","%d external commands were executed, expected %d"%(got,len(ex)))); return
    for i,(rc,codes,m) in enumerate(ex):
        p=root+"%d/"%(n+i)
        want=b"".join(shsafe({"a":m.area,"f":m.frm,"t":m.to,"s":m.subj,"x":m.date,"o":by(str4(frm4(m))),"d":by(str4(m.dest))}[x])+b"\n" for x in codes if x not in "mrR")
        a=open(p+"args","rb").read() if os.path.exists(p+"args") else b""
        if b"".join(bytes(95 if q in SPECIAL and q!=10 else q for q in [y])for y in a for q in [y])!=want: d.append(("exec","exec:args","command got %r, expected %r"%(a,want)))
        if "m" in codes:
            x=m.clone(); x.attr|=SENT; e=model.want_msg(x,t.cfg); g=read_msgfile(p+"m")
            for f in("frm","to","subj","date"):
                if getattr(e,f)!=getattr(g,f): d.append(("exec","exec:msg:"+f,"%%m file: %s %r expected %r"%(f,getattr(g,f),getattr(e,f))))
            if g.attr!=e.attr&0xffff: d.append(("exec","exec:msg:attr","%%m file attr %x expected %x"%(g.attr,e.attr)))
            if A(g.oz,g.onet,g.onode,g.op)!=e.orig or A(g.dz,g.dnet,g.dnode,g.dp)!=e.dest: d.append(("exec","exec:msg:addr","%m file addresses differ"))
            if norm(g.text)!=norm(e.text): d.append(("exec","exec:msg:text","%m file text: "+compare.firstdiff(e.text,g.text)))
        for k in "rR":
            if k not in codes: continue
            h,b=rfc_parse(norm(open(p+k,"rb").read().replace(b"\n",b"\r")).replace(b"\r",b"\n"))
            dom=next((q.domain for q in t.cfg.akas if same4(q.addr,m.dest)),"") or "FidoNet"
            if k=="r": fa=[by("%s@%s"%(full(q),dom)) for q in(m.orig,m.dest)]
            else:
                dm=dom.lower(); dm="fidonet.org" if dm=="fidonet" else dm
                fa=[nn.replace(b" ",b"_")+by("@%sf%d.n%d.z%d.%s"%("p%d."%q.p if q.p else "",q.f,q.n,q.z,dm)) for q,nn in((m.orig,m.frm),(m.dest,m.to))]
            want=[b"From: "+fa[0]+b" ("+m.frm+b")",b"To: "+fa[1]+b" ("+m.to+b")",b"Subject: "+m.subj,b"Date: "+m.date]
            if m.msgid: want.append(b"Message-ID: <"+m.msgid+b">")
            if m.reply: want.append(b"References: <"+m.reply+b">")
            ls=lines_of(m.text)
            want+=[b"X-Fido-"+norm(l)[1:].rstrip(b"\r") for l in ls if l[:1]==b"\x01"]
            if h!=want: d.append(("exec","exec:rfc:head","%%%s header %r expected %r"%(k,[x for x in h if x not in want][:3],[x for x in want if x not in h][:3])))
            if nows(b)!=nows(b"".join(l for l in ls if l[:1]!=b"\x01")): d.append(("exec","exec:rfc:body","%%%s body differs: %r"%(k,b[:200])))
        o.count("executed commands checked")
