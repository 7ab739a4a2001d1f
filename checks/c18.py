"""C18: nodelist lookups agree with the nodelist text."""
import random
from tossck import *
import nlgen,filt
from filt import FSim
PROP="C18"; LEVEL="exploration"
RULE="a case is a set of random node, regional and point lists compiled by the real compiler, looked up address by address with the lookup tool, and then used by a toss with hub, region, bounce and filter rules; distinct = distinct (lists, kinds of systems looked up, answers) combinations"
ASSUME=["node list lines of up to 198 characters with non-empty fields","a system listed as Down counts as not listed"]
CATS=("*",)
def cases(tier,seed):
    n=4000 if tier=="quick" else 30000
    return [{"seed":seed*1000003+i} for i in range(n)]
def lists(r,d):
    """writes lists in directory d, returns NL"""
    nl=nlgen.NL(); prefs=[]; t=1700000000
    def put(n,b,age=0):
        p=os.path.join(d,n)
        with open(p,"wb") as f: f.write(b)
        os.utime(p,(t+age,t+age))
    junk=b"Zone,66,x,y,z,1,300\r\n,1,Wrong,x,y,1,300\r\n"
    k=r.random()
    main=nlgen.nodelist(r,nl,pp=r.choice([0,.2]))
    base=r.choice(["NODELIST","nodelist","NET","Fido_List"])
    if k<.5:
        put(base+".%03d"%r.randint(1,366),main,100)
        for i in range(r.randint(0,3)): 
            n=(base if r.random()<.7 else base.lower())+".%03d"%r.randint(1,366)
            if not os.path.exists(os.path.join(d,n)): put(n,junk,r.randint(0,99))
        for n in(base[:3]+".200",base+"X.201","x"+base+".100",base+".txt",base+".20"):
            if r.random()<.5 and not os.path.exists(os.path.join(d,n)) and n.rsplit(".",1)[0].lower()!=base.lower() or n.endswith((".txt",".20")): put(n,junk,r.randint(101,300))
        prefs.append(base if r.random()<.7 else base.lower())
    else:
        n=r.choice(["nodelist.txt",base+".123","all"]); put(n,main); prefs.append(n)
    if r.random()<.4:
        z=r.choice([1,2,5,9]); put("REGION.111",nlgen.nodelist(r,nl,defzone=z,pp=0)); prefs.append("REGION %d"%z)
    if r.random()<.5: put("PNT",nlgen.pointlist(r,nl,nl_copy(nl))); prefs.append("PNT")
    if r.random()<.3: prefs.insert(r.randint(0,len(prefs)),"; a comment")
    if r.random()<.2: prefs.insert(r.randint(0,len(prefs)),"MISSING")
    if r.random()<.2: prefs.insert(r.randint(0,len(prefs)),"")
    with open(os.path.join(d,"cmnodelist.prefs"),"w") as f: f.write("\n".join(prefs)+"\n")
    return nl
def nl_copy(nl):
    c=nlgen.NL(); c.all=list(nl.all); c.e=dict(nl.e); return c
def near(r,nl):
    l=list(nl.e)+[x.a for x in nl.all if x.kind=="Down"]
    a=r.choice(l); k=r.random()
    if k<.5: return a
    if k<.6: return A(a.z,a.n,a.f,a.p+1 & 0xffff)
    if k<.7: return A(a.z,a.n,(a.f+r.choice([1,-1]))&0xffff,a.p)
    if k<.78: return A(a.z,a.n,r.choice(l).f,0)
    if k<.86: return A(r.choice(l).z,a.n,a.f,a.p)
    if k<.93: return A(a.z,r.choice(l).n,a.f,r.choice(l).p)
    return r.choice([A(0,0,0,0),A(a.z,0,0,0),A(a.z,a.n,0,0),A(66,66,1,0),A(0,a.n,a.f,0),A(a.z,a.z,0,0)])
def lookup(w,nl,a,o,env=False):
    x=w.run("crashgetnode",a.s3() if not env else str(a),*([] if env else [w.root+"nl"]),env={"CMNODELISTDIR":w.root+"nl"} if env else None,tick=0)
    d=[]
    if not runstate(x,d):
        for _,s,m in d: o.bad(s,m)
        return
    e=nl.get(a); o.count("lookups"); o.evals+=1
    if e is None:
        o.count("answer:absent")
        if x.rc==0 or "Node not found" not in x.text: o.bad("found:absent","%s is not listed but the answer was %r"%(a,x.text[:200]))
        return
    o.count("answer:"+e.kind.capitalize())
    names=["Name","Location","Sysop","Phone","Baud","Flags"]
    want=["Node %d:%d/%d.%d"%a,"Region %d, Hub %d"%(e.region,e.hub),"Node is listed as a %s"%e.kind]+["%s: %s"%(n,f) for n,f in zip(names,e.fields)]
    got=x.text.rstrip("\n").split("\n")
    if x.rc!=0: o.bad("absent:listed","%s is listed (%s) but was not found: %s"%(a,e.line,x.text[:200]))
    elif got!=want: o.bad("answer:differs","%s: answered %r, the list says %r"%(a,got,want))
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    c=g.cfg(nnodes=r.randint(2,5),nareas=1,flags=False)
    c.nodelist="nl"; c.loopmode="IGNORE"
    w0=World(ctx.base,"plain",ctx.bins,c); os.mkdir(w0.root+"nl"); nl=lists(r,w0.root+"nl"); w0.close
    t=None
    d=[]
    class S(FSim): pass
    t=Toss(ctx,c,nl=nl,simcls=S); t.files=[]; w=t.w
    import shutil
    shutil.copytree(w0.root+"nl",w.root+"nl"); w0.close()   # copytree keeps dates
    x=w.run("crashlist",w.root+"nl") if r.random()<.7 else w.run("sh","-c","") if False else w.run("crashlist",w.root+"nl/")
    if not runstate(x,d) or x.rc!=0: o.bad("compile","crashlist failed: %s %s"%(x.rc,x.text[:300])); t.close(); return
    for _ in range(r.choice([10,20])): lookup(w,nl,near(r,nl),o,r.random()<.2)
    i1=open(w.root+"nl/cmnodelist.index","rb").read()
    # use by the tosser
    l=list(nl.e)
    if l:
        P2=lambda: near(r,nl)
        def pat():
            a=P2(); k=r.random(); e=nl.get(A(*a[:3],0))
            if k<.4: return "HUB %d:%d/%d"%(a.z,a.n,e.hub if e else a.f)
            if k<.8: return "REGION %d:%d"%(a.z,e.region if e else a.n)
            if k<.9: return "NET %d:%d"%a[:2]
            return "%d:%d/%d.*"%a[:3]
        hubs=[r.choice(c.akas).addr for _ in range(3)]
        c.routes=[(pat(),r.choice(["HUB","REGION","HUB","REGION","NET","*:*/*.0","NODE"]),r.choice(c.akas).addr) for _ in range(r.randint(1,5))]+[("*:*/*.*",r.choice(["HUB","REGION","*:*/*.*"]),c.akas[0].addr)]
        if r.random()<.7: c.bounces=r.sample(["*:*/*.*"]+[pat() for _ in range(3)],r.randint(1,2))
        if r.random()<.3: c.changes=[("*",pat(),r.choice(["CRASH","HOLD"]))]
        flt=[]
        for _ in range(r.choice([0,1,2,3])):
            v=r.choice(["EXISTSNL_FROMADDR","EXISTSNL_TOADDR","EXISTSNL_FROMBOSS","EXISTSNL_TOBOSS"])
            e=("chain",[(None,r.random()<.3,("atom",v,"",""))]+([(r.choice(["AND","OR"]),False,("atom","TOADDR","=",pat()))] if r.random()<.4 else []))
            flt.append((e,filt.render(e,r),[("WRITELOG","WL%d: %%f %%o %%d"%len(flt))]))
        t.sim.flt=[(e,cm) for e,tx,cm in flt]; c.filters=[(tx,['%s "%s"'%y for y in cm]) for e,tx,cm in flt]
        w.write_cfg()
        ms=[]
        for _ in range(r.randint(2,8)):
            n=r.choice(c.nodes).addr; og=near(r,nl); de=near(r,nl)
            if og.z==0: og=A(2,og.n or 1,og.f,og.p)
            if de.z==0: de=A(2,de.n or 1,de.f,de.p)
            m,_=g.net(c,og,de,attr=r.choice([0,PVT]),intl=True)
            ms.append((n,m))
        f=[]; deliver(g,c,f,ms,bundle=0); t.inbound(f); t.run(d); o.count("tossed",len(ms))
        from c17 import check_log
        if not d: check_log(t,d)
        for e in t.sim.events: o.count("event:"+str(e[0]))
    select(d,CATS,o)
    w.run("crashlist",w.root+"nl")
    if open(w.root+"nl/cmnodelist.index","rb").read()!=i1: o.bad("recompile","compiling the unchanged lists again gave another index")
    o.key(len(nl.all),sorted(set(e.kind for e in nl.all)),[q[:2] for q in c.routes],len(t.sim.out))
    if case["seed"]%200==1: o.sample={"systems":len(nl.e),"example":nl.all[0].line if nl.all else "","routes":[q[:2] for q in c.routes],"bounces":c.bounces}
    t.close()
