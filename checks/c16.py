"""C16: two runs on one configuration."""
import random,subprocess,signal,time,copy
from tossck import *
from cfg import Area
import c14,c21,model
PROP="C16"; LEVEL="exploration"
RULE="a case is one of: 2-5 runs (tossing, scanning) started at once on one configuration with system calls delayed at random, their change timelines checked for overlap and the joint result compared with the model applied in the observed order; lock, unlock and interrupt sequences; runs that fail. distinct = distinct (runs in observed order, waits per run, overlap of process life times) combinations"
ASSUME=["the lock is not removed by hand (UNLOCK) while a run is working","all runs name the configuration file with the same path"]
CATS=("*",)
def cases(tier,seed):
    n=2400 if tier=="quick" else 16000
    return [{"seed":seed*1000003+i} for i in range(n)]
def launch(w,args,env,r,delay,i,trace=True):
    lg=w.root.rstrip("/")+".l%d"%i; of=open(w.root.rstrip("/")+".o%d"%i,"wb")
    cmd=([os.path.join(w.bins,"inj"),lg,"delay",str(r.getrandbits(30)),str(delay),"--"] if trace else [])+[os.path.join(w.bins,"crashmail"),"SETTINGS",w.root+"cm.prefs"]+args
    p=subprocess.Popen(cmd,cwd=w.root,env=env,stdin=subprocess.DEVNULL,stdout=of,stderr=subprocess.STDOUT); of.close()
    return p,lg
def finish(w,p,lg,i,timeout):
    try: p.wait(timeout)
    except subprocess.TimeoutExpired: p.kill(); p.wait(); return None,"",[]
    out=open(w.root.rstrip("/")+".o%d"%i,"rb").read().decode("latin1"); os.unlink(w.root.rstrip("/")+".o%d"%i)
    ev=[]
    if os.path.exists(lg):
        for l in open(lg,encoding="latin1"):
            x=l.rstrip("\n").split(" ")
            if len(x)>=4 and x[0].isdigit() and x[1].isdigit(): ev.append((int(x[0]),int(x[1]),x[2],x[3].replace(w.root,"")))
        os.unlink(lg)
    return p.returncode,out,ev
def busy(w): return [f for f in os.listdir(w.root) if "busy" in f or f.endswith(".bsy") or f.endswith(".tmp")]
def concurrent(r,g,ctx,o,d):
    c=g.cfg(nnodes=r.randint(2,3),nareas=r.randint(1,2),switches=[x for x in("CHECKSEENBY","IMPORTSEENBY") if r.random()<.3],pw=False)
    c.dupemode="KILL"; c.dupesize=1000; c.loopmode="IGNORE"; c.areafixnames=[]
    for n in c.nodes:
        if r.random()<.7: n.flags.add("AUTOADD")
    t=Toss(ctx,c); t.files=[]; w=t.w; os.mkdir(w.root+"pk")
    es=[a for a in c.areas if a.kind=="ECHO" and a.exports]
    sc=[a for a in c.areas if a.base and a.kind=="ECHO" and a.exports]
    for _ in range(r.choice([0,1,3])):
        if sc: t.local(g,r.choice(sc))
    runs=[]; old=[]; n=r.choice([2,2,3,3,4,5]); new=["NEW.%d"%i for i in range(3)]
    for i in range(n):
        if r.random()<.25: runs.append(["SCAN"]); continue
        ms=[]; n0=r.choice(c.nodes)
        for _ in range(r.choice([1,2,4])):
            z=r.random()
            if z<.3 and old: m=r.choice(old)
            elif z<.6: m,_t=g.echo(c,n0.addr,by(r.choice(new)),msgid=g.msgid(n0.addr))
            elif z<.9 and es: m,_t=g.echo(c,n0.addr,by(r.choice(es).tag),msgid=g.msgid(n0.addr))
            else: m,_t=g.net(c,n0.addr,c.akas[0].addr,attr=PVT)
            if m not in old and b"AREA:" in m: old.append(m)
            ms.append(m)
        b=g.pkt(n0.addr,c.akas[0].addr,ms); k="%08x.pkt"%(0x1000+i)
        with open(w.root+"pk/"+k,"wb") as f: f.write(b)
        runs.append(["TOSSFILE",w.root+"pk/"+k,b])
    t.snap(); w.now+=2
    env=dict(w.env0); env["CMV_TIME"]=str(w.now); env["CMV_SLEEP_US"]=str(r.choice([200,1000,4000]))
    delay=r.choice([0,300,2000,6000]); P=[]
    for i,x in enumerate(runs):
        e=dict(env); e["CMV_TIME"]=str(w.now+3600*i+i)   # real clocks never show two processes holding the lock the same time
        P.append(launch(w,x[:2],e,r,delay,i))
        if r.random()<.3: time.sleep(r.random()*.006)
    R=[]
    for i,(p,lg) in enumerate(P): R.append(finish(w,p,lg,i,ctx.timeout*3)+(runs[i],i))
    if any(x[0] is None for x in R): d.append(("run","hang","runs started together did not end")); t.close(); return
    waits=[x[1].count("waiting") for x in R]; o.count("runs",n); o.count("waits",sum(waits)); o.count("changes observed",sum(len(x[2]) for x in R))
    for x in R:
        if x[0]!=0: d.append(("lock","conc:rc","%s returned %d: %s"%(x[3][:1],x[0],x[1][-300:])))
    # nobody changes anything while another run works
    iv=[]
    for x in R:
        e=[q for q in x[2] if not q[3].startswith("cm.prefs")]
        if e: iv.append((e[0][0],e[-1][1],x[3],x[4],e))
        elif x[0]==0: d.append(("lock","conc:none","%s changed nothing"%x[3][:1]))
    iv.sort(key=lambda q:q[0])
    for p,q in zip(iv,iv[1:]):
        if q[0]<p[1]:
            d.append(("lock","conc:overlap","%s changed %s while %s was still working (last change %s)"%(q[2][0],q[4][0][2:],p[2][0],p[4][-1][2:])))
    cf=sorted((e[0],e[1],x[4]) for x in R for e in x[2] if e[3].startswith("cm.prefs") and not e[3].endswith(".busy"))
    if busy(w): d.append(("lock","conc:left","lock or temporary files left: %s"%busy(w)))
    o.key(n,[q[2][0] for q in iv],[min(z,3) for z in waits],delay)
    if d: t.close(); return
    bk=c21.Book(); scanned=False; here=set(a.tag.lower() for a in c.areas)
    t.sim.now=w.now; exp={}
    for q in iv:
        x=q[2]
        if x[0]=="SCAN":
            if scanned: continue
            scanned=True
            for a in list(c.areas):
                if a.kind!="ECHO" or not a.base or a.unconf or a.tag not in t.old: continue
                recs=[(k,m) for k,m in sorted(t.old[a.tag].items()) if a.base!="MSG" or k>=2]
                for k in t.sim.scan(a,recs): t.sent.add((a.tag,k))
        else:
            t.sim.nosec=False
            if t.sim.toss_pkt(x[2]) is not None: exp[os.path.basename(x[1])+".bad"]=x[2]
    left=read_tree(w.root+"pk")
    if left!=exp: d.append(("lock","conc:packets","packets left %s, expected %s"%(sorted(left),sorted(exp))))
    t.compare(d)
    c14.check_cfg(t,d,c)
    # joint statistics
    day,ar,no=c21.read(open(w.root+"cm.stats","rb").read())
    for a in ar:
        e=t.sim.astat.get(next((y.tag for y in c.areas if y.tag.lower()==a["tag"].lower()),a["tag"]),{})
        if (a["total"],a["dupes"])!=(e.get("NewTexts",0),e.get("NewDupes",0)): d.append(("lock","conc:stats","area %s: %d texts %d dupes counted, expected %s"%(a["tag"],a["total"],a["dupes"],e)))
    for k in no:
        e=t.sim.nstat.get(k["addr"],{})
        if (k["ge"],k["se"],k["gn"])!=(e.get("GotEchomail",0),e.get("SentEchomail",0),e.get("GotNetmail",0)): d.append(("lock","conc:stats","node %s: %s, expected %s"%(k["addr"],k,e)))
    o.count("areas auto-added",len(t.sim.newareas)); o.count("dupes",sum(1 for e in t.sim.events if e[0]=="dupe"))
    t.close()
def tree(w):
    x=read_tree(w.root); return {k:v for k,v in x.items() if not k.endswith("cm.log")}
def locking(r,g,ctx,o,d):
    """LOCK / UNLOCK, waiting, interrupts"""
    c=g.cfg(nnodes=2,nareas=1,pw=False); c.loopmode="IGNORE"
    t=Toss(ctx,c); t.files=[]; w=t.w
    ms=[]; es=[a for a in c.areas if a.kind=="ECHO" and a.exports]
    for _ in range(2):
        if es: a=r.choice(es); n=r.choice(a.exports)[1]; m,_t=g.echo(c,n,by(a.tag)); ms.append((n,m))
    if not ms: m,_t=g.net(c,c.nodes[0].addr,c.akas[0].addr,attr=PVT); ms.append((c.nodes[0].addr,m))
    f=[]; deliver(g,c,f,ms,bundle=0); t.inbound(f)
    t0=tree(w)
    x=w.cm("LOCK")
    if not runstate(x,d): t.close(); return
    if x.rc!=0: d.append(("lock","lock:rc","LOCK returned %d %s"%(x.rc,x.text[-200:])))
    t1=tree(w); new=sorted(set(t1)-set(t0))
    if {k:t1.get(k) for k in t0}!=t0 or len(new)!=1: d.append(("lock","lock:effect","LOCK changed files %s, created %s"%([k for k in t0 if t1.get(k)!=t0[k]],new)))
    env=dict(w.env0); env["CMV_TIME"]=str(w.now+2); env["CMV_SLEEP_US"]=str(r.choice([300,2000])); P=[]
    kinds=[r.choice([["TOSS"],["TOSS"],["SCAN"],["LOCK"],["SENDQUERY","ALL"]]) for _ in range(r.randint(1,3))]
    for i,k in enumerate(kinds): P.append(launch(w,k,env,r,0,i,trace=False))
    end=time.time()+ctx.timeout
    while time.time()<end and not all(os.path.getsize(w.root.rstrip("/")+".o%d"%i)>0 or P[i][0].poll() is not None for i in range(len(P))): time.sleep(.002)
    time.sleep(r.choice([0,.01,.03]))
    done=[kinds[i] for i in range(len(P)) if P[i][0].poll() is not None]
    if done: d.append(("lock","lock:ignored","%s did not wait for the lock"%done))
    if tree(w)!=t1: d.append(("lock","lock:changed","files changed while the configuration was locked: %s"%[k for k in set(t1)|set(tree(w)) if t1.get(k)!=tree(w).get(k)]))
    o.key("lock",kinds,len(done))
    intr=r.random()<.4
    if intr and not d:
        for p,lg in P: p.send_signal(signal.SIGINT)
        for i,(p,lg) in enumerate(P):
            rc,out,_=finish(w,p,lg,i,ctx.timeout*2)
            if rc is None: d.append(("run","hang","interrupted waiting run did not end"))
            elif rc==0: d.append(("lock","lock:intr","an interrupted waiting run returned 0"))
        if tree(w)!=t1: d.append(("lock","lock:intr","an interrupted waiting run changed files: %s"%[k for k in set(t1)|set(tree(w)) if t1.get(k)!=tree(w).get(k)]))
        x=w.cm("UNLOCK")
        if tree(w)!=t0: d.append(("lock","unlock:effect","UNLOCK changed %s"%[k for k in set(t0)|set(tree(w)) if t0.get(k)!=tree(w).get(k)]))
        if not d: t.run(d)
        o.count("interrupted",len(P)); t.close(); return
    if not d:
        x=w.cm("UNLOCK")
        if x.rc!=0: d.append(("lock","unlock:rc","UNLOCK returned %d"%x.rc))
    nl=sum(k==["LOCK"] for k in kinds); freed=0
    for i,(p,lg) in enumerate(P):
        while not d and nl and p.poll() is None and time.time()<end+20:
            # a waiting LOCK took the lock again
            q=[j for j in range(len(P)) if kinds[j]==["LOCK"] and P[j][0].poll() is not None]
            if len(q)>freed: w.cm("UNLOCK"); freed+=1      # once for each, or a run's own lock would be taken away
            time.sleep(.002)
        rc,out,_=finish(w,p,lg,i,ctx.timeout*2)
        if rc is None: d.append(("run","hang","%s did not go on after UNLOCK"%kinds[i]))
        elif rc!=0: d.append(("lock","lock:wait","%s returned %d after waiting: %s"%(kinds[i],rc,out[-200:])))
    while freed<nl and not d: w.cm("UNLOCK"); freed+=1
    if busy(w): d.append(("lock","lock:left","left after the runs: %s"%busy(w)))
    if not d and ["TOSS"] in kinds and not intr and not os.listdir(w.root+"in")==[]:
        d.append(("lock","lock:toss","mail was not tossed after UNLOCK: %s"%os.listdir(w.root+"in")))
    o.count("waiting runs",len(P)); t.close()
def failing(r,g,ctx,o,d):
    """the lock disappears however a run ends"""
    c=g.cfg(nnodes=2,nareas=1,pw=False)
    t=Toss(ctx,c); w=t.w; k=r.choice(["keyword","missing","stats","inbound","outbound","area","args","break","log","dupes","cmd","rcargs","nonode","packet"])
    args=["TOSS"]; name=w.root+"cm.prefs"
    if k=="keyword": open(name,"a").write("FOO BAR\n")
    if k=="missing": name=w.root+"nosuch.prefs"
    if k=="stats": open(w.root+"cm.stats","wb").write(b"XXXX12")
    if k=="inbound": open(name,"a").write('INBOUND "%snosuchdir"\n'%w.root)
    if k=="outbound": open(name,"a").write('OUTBOUND "%snosuchdir"\n'%w.root)
    if k=="area": open(name,"a").write('AREA X 9:9/9\n')
    if k=="log": open(name,"a").write('LOGFILE "%snosuch/log"\n'%w.root)
    if k=="dupes": open(w.root+"dupes","wb").write(b"garbage")
    if k=="rcargs": args=["RESCAN","NOSUCH","RESCANNODE","x"]
    if k=="nonode": args=["SENDQUERY","9:9/9"]
    if k=="cmd": args=["SCANAREA","NOSUCH"]
    if k=="args": args=["TOSS","NOSUCHKEYWORD"]
    if k=="packet": w.put("00000001.pkt",b"x"*70)
    if k=="break": pass
    x=w.run("crashmail","SETTINGS",name,*args)
    if runstate(x,d) and busy(w): d.append(("lock","fail:left","after a run with %s: %s left"%(k,busy(w))))
    o.key("fail",k,x.rc); o.count("failing runs"); t.close()
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); d=[]
    k=r.random()
    (concurrent if k<.7 else locking if k<.88 else failing)(r,g,ctx,o,d)
    select(d,CATS,o)
