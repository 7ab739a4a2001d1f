"""C13: outbound packets, bundles and flow files are well formed and complete."""
import random,time
from tossck import *
PROP="C13"; LEVEL="exploration"
RULE="a case is a history of tosses and scans over an outbound that already holds packets, flow files and busy flags, with a mailer that takes or truncates files in between; distinct = distinct (operations, size limits, file kinds, busy, appended) combinations"
CATS=("pkt","pktpw","flav","out","run","tm","busy","flow","size","outhdr","outaddr","attach","name")
def cases(tier,seed):
    n=2500 if tier=="quick" else 12000
    return [{"seed":seed*1000003+i} for i in range(n)]
def base_of(w,c,a):
    """outbound base name of a node, from the naming convention (route given, one domain)"""
    d=w.root+c.outbound+("" if a.z==c.akas[0].addr.z else ".%03x"%a.z)
    b=d+"/%04x%04x"%(a.n,a.f)
    if a.p: b+=".pnt/%08x"%a.p
    return b
EXT={"Normal":"out","Hold":"hut","Direct":"dut","Crash":"cut"}
FEXT={"Normal":"flo","Hold":"hlo","Direct":"dlo","Crash":"clo"}
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    c=g.cfg(nnodes=r.randint(2,6),nareas=r.randint(1,3),switches=[x for x in("WEEKDAYNAMING","FLOWCRLF","CHECKSEENBY") if r.random()<.2],packer=r.choice([0,.5,1,1])); c.dupemode="IGNORE"; c.loopmode="IGNORE"
    for k in c.akas: k.domain=""
    if r.random()<.4: c.maxpkt=r.choice([1,1,2,4])
    if r.random()<.35: c.maxbundle=r.choice([1,1,2,4])
    if r.random()<.4: c.changes=[("*","*:*/*.*",r.choice(["HOLD","CRASH","DIRECT"]))]
    if r.random()<.6: c.fileattach=["*:*/*.*"]
    t=Toss(ctx,c); t.files=[]; at=Attach(t); nf=0; pend=[]; os.mkdir(t.w.root+"files")
    def sent(x,n):
        """the mailer has sent a file of that name before; its line is marked"""
        if r.random()<.7 or busy: return
        for a in (n,A(*n[:3],0)):
            b=base_of(t.w,c,a); os.makedirs(os.path.dirname(b),exist_ok=True)
            for e in FEXT.values():
                if os.path.exists(b+"."+e) or r.random()<.5: open(b+"."+e,"a",newline="").write("~"+t.w.root+c.pktdir+"/"+x+("\r\n" if "FLOWCRLF" in c.switches else "\n"))
        o.count("sent before")
    def names():
        nonlocal nf
        nf+=1; x=r.choice(["f%d.zip","doc%d","Pic%d.Jpeg","%08x.txt","a%d.b.c"])%nf
        l=[x]
        if r.random()<.5: l+=r.sample([x+"z",x[:-1],x+".asc","z"+x,x+"0"],r.randint(1,2))
        r.shuffle(l); return l
    d=[]; ops=[]; w=t.w; times=set(); foreign={}
    # what other programs left there
    for n in r.sample(c.nodes,r.randint(0,min(3,len(c.nodes)))):
        b=base_of(w,c,n.addr); os.makedirs(os.path.dirname(b),exist_ok=True); fl=r.choice(["Normal","Hold","Direct","Crash"])
        if r.random()<.5:
            msgs=[g.net(c,r.choice(c.akas).addr,n.addr,attr=0)[0] for _ in range(r.randint(1,3))]; og=r.choice(c.akas).addr
            pw=b"" if "NONETMAILPASSWORD" in n.flags else by(n.pw)
            p=pkthdr(og,n.addr,pw,tm=(2020,1,2,3,4,5))+b"".join(msgs)+b"\0\0"
            open(b+"."+EXT[fl],"wb").write(p)
            for m in parse_pkt(p).msgs: m.echo=False; m.note=None; m.auto=False; t.sim.out.append((n.addr,og,fl,m))
            ops.append("out"); times.add((2020,0,2,3,4,5)); o.count("existing packets")
        if r.random()<.5:
            x=w.root+"ar/file%d.zip"%len(foreign); open(x,"wb").write(b"zip")
            line=r.choice(["","^","#"])+x
            foreign[b+"."+FEXT[fl]]=line
            open(b+"."+FEXT[fl],"w",newline="").write(line+("\r\n" if "FLOWCRLF" in c.switches else "\n")); ops.append("flo"); o.count("existing flow files")
    last={}
    if r.random()<.3:
        # the index of the last bundle names, as earlier runs left it: any suffix, perhaps one base for two systems, unknown systems
        L=[]; wd="su mo tu we th fr sa".split(); today=wd[(time.gmtime(w.now).tm_wday+1)%7]; bb=0x40000000+r.getrandbits(20); used=set()
        for i,n in enumerate(c.nodes):
            if r.random()<.7:
                q=bb if r.random()<.2 else bb+1+i; x="%08x.%s%d"%(q,r.choice([today,"sa","su",r.choice(wd)]),r.choice([9,9,0,8,r.randint(0,9)])); L.append("%s %s"%(str(n.addr),x))
                if q not in used: used.add(q); last[n.addr]=x
        if r.random()<.2: L.append("%s %08x.mo1"%(str(g.addr()),bb+77))
        open(w.root+c.pktdir+"/cmindex","w").write("".join(x+"\n" for x in L)); ops.append("ix"); o.count("index files")
    es=[a for a in c.areas if a.kind=="ECHO" and a.exports]; loc=[a for a in c.areas if a.base and a.kind in("ECHO","NETMAIL")]
    for step in range(r.randint(1,4)):
        busy=[]
        if r.random()<.3:
            for n in r.sample(c.nodes,r.randint(1,2)):
                b=base_of(w,c,n.addr); os.makedirs(os.path.dirname(b),exist_ok=True); open(b+".bsy","w").close(); busy.append((n,b))
        def state(b):
            q=os.path.dirname(b); x=os.path.basename(b)+"."
            return {f:open(os.path.join(q,f),"rb").read() for f in os.listdir(q) if f.startswith(x) and os.path.isfile(os.path.join(q,f))}
        pre={b:state(b) for n,b in busy}; arcs0=[x for x in os.listdir(w.root+c.pktdir) if is_arc(x)]
        dd=[] if busy else d
        if r.random()<.75 or not loc:
            ms=[]; files=[]; at.start("t")
            if c.fileattach and r.random()<.5:
                for x in names():
                    if r.random()<.2: pend.append(x); continue
                    n=r.choice(c.nodes).addr; e=r.choice(c.nodes).addr; sent(x,e); files.append((x,by("content of "+x))); ms.append((n,g.net(c,n,e,subj=by(x),attr=ATTACH|r.choice([0,CRASH,HOLD]))[0])); o.count("attached files")
            if c.fileattach and pend and r.random()<.5:
                x=pend.pop(); n=r.choice(c.nodes).addr; files.append((x,by("content of "+x))); ms.append((n,g.net(c,n,r.choice(c.nodes).addr,subj=by(x),attr=ATTACH)[0])); o.count("attached files")
            for _ in range(r.choice([1,3,8,20])):
                if es and r.random()<.7:
                    a=r.choice(es); n=r.choice(a.exports)[1]; m,_=g.echo(c,n,by(a.tag))
                else:
                    n=r.choice(c.nodes).addr; y=r.random(); m,_=g.net(c,n,r.choice(c.nodes).addr if y<.6 else g.addr(),attr=g.attr()&~(RREQ|AUDIT|ATTACH))
                ms.append((n,m))
            f=[]; deliver(g,c,f,ms,bundle=.1); t.inbound(f+files); t.run(dd); ops.append("t")
        else:
            at.start("s"); nl=[a for a in loc if a.kind=="NETMAIL"]
            if nl and r.random()<.5:
                for x in names():
                    p=w.root+"files/"+x; at.local[p]=by("local "+x); open(p,"wb").write(at.local[p]); o.count("attached files")
                    t.local(g,r.choice(nl),dest=r.choice(c.nodes).addr,attr=LOCAL|ATTACH|r.choice([0,CRASH,HOLD]),orig=r.choice(c.akas).addr,subj=by(p))
            for _ in range(r.randint(1,5)):
                a=r.choice(loc); t.local(g,a,dest=r.choice(c.nodes).addr,attr=LOCAL|r.choice([0,CRASH,HOLD]))
            t.exp_in={}; t.scan(dd); at.before(dd); ops.append("s")
        times.add(time.gmtime(w.now)[:6])
        if busy:
            ops.append("b"); o.count("busy runs")
            for x in dd:
                if x[0]=="run": d.append(x)
            for n,b in busy:
                if state(b)!=pre[b]: d.append(("busy","busy:touched","files of busy system %s were changed"%str(n.addr)))
                elif not os.path.exists(b+".bsy"): d.append(("busy","busy:flag","busy flag of %s was removed"%str(n.addr)))
            for n,b in busy: os.unlink(b+".bsy")
            if not d: at.start("s"); t.scan(d); at.before(d); times.add(time.gmtime(w.now)[:6])
        if d: break
        ob=t.ob
        for fn,line in foreign.items():
            L=open(fn,newline="").read().replace("\r","").split("\n") if os.path.exists(fn) else []
            if L[:1]!=[line]: d.append(("flow","flow:lost","existing entry of flow file %s lost: %r"%(os.path.basename(fn),L[:3])))
        at.check(d,skip=set(l.lstrip("^#") for l in foreign.values()))
        tt=set((x[0],x[1]-1)+x[2:] if x[0]!=2020 or len(x)!=6 or x[1]!=0 else x for x in times)
        o.count("packets",len(ob.pkts))
        sizes={}
        for k in ob.pkts:
            if k.tm not in tt: d.append(("tm","tm","packet %s has date %s, runs were at %s"%(k.file,k.tm,sorted(tt))))
            if c.maxpkt and k.bundle:
                body=sum(m.size for m in k.msgs[:-1])
                if body+58>c.maxpkt*1024 and len(k.msgs)>1: d.append(("size","size:pkt","packet %s: %d bytes before its last message, limit %d"%(k.file,body,c.maxpkt)))
            if k.bundle and ":" in k.file: sizes.setdefault(k.bundle,[]).append(k)
        if c.maxbundle:
            for bn,ks in sizes.items():
                z=sum(k.size+18 for k in ks[:-1])
                # no name left (ten a day, or seventy): the last bundle takes the rest
                same=[x for x in os.listdir(w.root+c.pktdir) if x[:8]==bn[:8] and is_arc(x) and ("WEEKDAYNAMING" not in c.switches or x[9:11]==bn[9:11])]
                if len(same)>=(10 if "WEEKDAYNAMING" in c.switches else 70): o.count("names used up"); continue
                if len(ks)>1 and z>c.maxbundle*1024+18: d.append(("size","size:bundle","bundle %s: %d bytes before its last packet, limit %d"%(bn,z,c.maxbundle)))
        o.count("bundles",len(sizes))
        if "WEEKDAYNAMING" in c.switches:
            days=["su mo tu we th fr sa".split()[(time.gmtime(y).tm_wday+1)%7] for y in(w.now,w.now-600)]
            for x in os.listdir(w.root+c.pktdir):
                if is_arc(x) and not any(y[:8]==x[:8] for y in arcs0):
                    o.count("bundles with weekday names")
                    if x[9:11] not in days: d.append(("name","name:day","WEEKDAYNAMING: a bundle made on %s is called %s"%(days[0],x)))
        for n,x in last.items():
            l=[os.path.basename(f) for q,fl,mode,f in ob.files if q==n and is_arc(os.path.basename(f))]
            if not l: continue
            o.count("bundle after another was taken")
            if x in l and len(l)<9: d.append(("name","name:reused","the bundle %s for %s was taken by the mailer; the next one has the same name"%(x,str(n))))
        if d: break
        # the mailer takes everything for one system
        if r.random()<.4:
            n=r.choice(c.nodes); ops.append("m"); keep=r.random()<.3
            l=[os.path.basename(f) for q,fl,mode,f in ob.files if q==n.addr and is_arc(os.path.basename(f))]
            if l: last.update((n.addr,x.split()[1]) for x in open(w.root+c.pktdir+"/cmindex") if x.split()[0]==str(n.addr))
            for dest,fl,mode,path in ob.files:
                if dest==n.addr and path.startswith(w.root+"pkt/"):
                    if keep: open(path,"wb").close()
                    elif os.path.exists(path): os.unlink(path)
            b=base_of(w,c,n.addr)
            for x in list(EXT.values())+list(FEXT.values()):
                if os.path.exists(b+"."+x): os.unlink(b+"."+x); foreign.pop(b+"."+x,None)
            t.sim.out=[x for x in t.sim.out if x[0]!=n.addr]
            for x in [x for x in at.fl if x[0]==n.addr]: at.fl.remove(x); at.pk.pop(at.base(x[3]),None)
    select(d,CATS,o)
    o.key(ops,c.maxpkt,c.maxbundle,sorted(c.switches),[n.packer for n in c.nodes])
    if case["seed"]%200==1: o.sample={"ops":ops,"maxpkt":c.maxpkt,"maxbundle":c.maxbundle}
    t.close()
