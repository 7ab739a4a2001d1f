"""C15: rewriting the configuration file preserves everything not changed."""
import random
from tossck import *
import af,rdcfg,errno
import c14
from cfg import Area
PROP="C15"; LEVEL="exploration"
RULE="a case is a configuration file in free form (comments, blank lines, mixed case, quoting, odd spacing, reordered and split statements, line ends) and a history of runs that change it (AreaFix requests, auto-added areas, operator removals); after each run the file is read by an independent reader; in part of the cases the rewriting runs with a failing or full disk or is killed; distinct = distinct (layout features, changes made, fault point)"
CATS=("cfg","run")
ASSUME=["comment lines start with a semicolon; empty lines have no meaning"]
def cases(tier,seed):
    n=9000 if tier=="quick" else 90000
    return [{"seed":seed*1000003+i,"fault":i%4==3} for i in range(n)]
COMM=["; comment","; AREA \"X\" 1:2/3","  ; indented","\t;tab","; EXPORT 1:2/3 \\ \"","; \xe5\xe4","; GROUP A",";","; "+"x"*300,"; % d %s %n"]
def messy(text,r,feat):
    L=text.rstrip("\n").split("\n"); out=[]
    blk=[]   # regroup statements of one area or node in random order
    i=0
    H=("AREA","NETMAIL","LOCALAREA"); S=("EXPORT","IMPORT","BANNED","GROUP","DESCRIPTION","KEEPNUM","KEEPDAYS")+rdcfg.AREAFLAG
    NS=("DEFAULTGROUP","REMOTESYSOP","REMOTEAF","AREAFIXINFO","PKTFROM")
    while i<len(L):
        k=(rdcfg.words(L[i]) or [""])[0]
        if k in H or k=="NODE":
            sub=[];j=i+1
            while j<len(L) and (rdcfg.words(L[j]) or [""])[0] in (S if k in H else NS): sub.append(L[j]); j+=1
            ex=[x for x in sub if x.startswith(("EXPORT","IMPORT","BANNED"))]; ot=[x for x in sub if x not in ex]
            if r.random()<.5: r.shuffle(ot)
            for x in ex: ot.insert(r.randint(0,len(ot)),x) if len(ex)==1 else ot.append(x)
            out.append(L[i]); out+=ot; i=j
        else: out.append(L[i]); i+=1
    res=[]
    for l in out:
        w=rdcfg.words(l)
        if l.startswith(";"): res.append(l); continue
        k=w[0]
        if k=="EXPORT" and r.random()<.5:
            # abbreviations take what is missing from the previous address; several statements
            ws=[];last=None
            for x in w[1:]:
                m="" ;y=x
                while y[:1] in "!@%": m+=y[0]; y=y[1:]
                q=P(y); t=y
                if last and r.random()<.7:
                    if q.z==last.z and q.n==last.n and q.f==last.f and q.p: t=".%d"%q.p
                    elif q.z==last.z and q.n==last.n: t="%d"%q.f+(".%d"%q.p if q.p else "")
                    elif q.z==last.z: t="%d/%d"%(q.n,q.f)+(".%d"%q.p if q.p else "")
                elif q.p==0 and r.random()<.5: t="%d:%d/%d"%(q.z,q.n,q.f)
                ws.append(m+t); last=q; feat.add("abbrev")
            l="EXPORT "+" ".join(ws); w=[k]+ws
        if r.random()<.3: k="".join(r.choice([c.upper(),c.lower()]) for c in k); feat.add("case")
        # requote
        toks=[]
        p=0; raw=[]
        for x in w[1:]:
            esc=x.replace("\\","\\\\").replace('"','\\"')
            needs=x=="" or " " in x or "\t" in x or x[:1]==";"
            if needs or r.random()<.4: toks.append('"%s"'%esc)
            else: toks.append(esc)
        sep=lambda: r.choice([" "," "," ","  ","\t"," \t "])
        l=(r.choice(["","","  ","\t"]) if r.random()<.3 else "")+k+"".join(sep()+x for x in toks)+(r.choice([" ","\t"]) if r.random()<.1 else "")
        if r.random()<.12: res.append(r.choice(COMM)); feat.add("comment")
        if r.random()<.1: res.append(r.choice([""," ","\t"])); feat.add("blank")
        res.append(l)
    if r.random()<.3: res.append(r.choice(COMM))
    nl="\n"
    if r.random()<.15: nl="\r\n"; feat.add("crlf")
    t=nl.join(res)+nl
    if r.random()<.15: t=t.rstrip("\r\n"); feat.add("noeol")
    return t
def order(P,gone=(),new=()):
    return [x for x in P.order if not(x[0]=="a" and x[1] in gone)]
def norm_c(P): return [x if x[0]!="c" else ("c",x[1].rstrip()) for x in P.order]
def check_file(txt,before,c,root,d):
    """txt: file now; before: parsed file before the run; c: the model's configuration"""
    try: got=rdcfg.parse(txt)
    except Exception as e: d.append(("cfg","cfg:unreadable","rewritten configuration cannot be read: %r\n%s"%(e,txt[-500:]))); return
    # an area removed and created again in the same run keeps its place
    h={x["tag"].lower():i for i,x in enumerate(before.areas)}
    c.areas.sort(key=lambda a:h.get(a.tag.lower(),10**6))
    for sg,m in rdcfg.diff(af.parsed(c,root),got): d.append(("cfg",sg,m))
    have=[a.tag.lower() for a in c.areas]; had=[x["tag"].lower() for x in before.areas]
    exp=[x for x in norm_c(before) if not(x[0]=="a" and x[1] not in have)]+[("a",t) for t in have if t not in had]
    g=norm_c(got)
    if exp!=g:
        for i in range(max(len(exp),len(g))):
            e=exp[i] if i<len(exp) else None; x=g[i] if i<len(g) else None
            if e!=x: d.append(("cfg","cfg:layout","line order or comments changed: found %r where %r should be"%(x,e))); break
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); c=c14.config(r,g); feat=set()
    if r.random()<.3:
        # long lists of links and banned systems
        a=r.choice([a for a in c.areas if a.kind=="ECHO"])
        for i in range(r.choice([9,10,11,25])):
            from cfg import Node
            n=Node(A(c.akas[0].addr.z,777,i+1,0)); c.nodes.append(n); a.exports.append((r.choice(["","!","@"]),n.addr))
            if r.random()<.5: a.banned.append(n.addr)
        feat.add("many")
    if r.random()<.2: c.areas.append(Area("T"*79,c.akas[0].addr,"ECHO","JAM","ar/long",exports=[("",c.nodes[0].addr)],group="A")); feat.add("longtag")
    for a in c.areas:
        if a.kind=="ECHO" and r.random()<.5: a.group=r.choice(c14.GR); a.flags.discard("MANDATORY"); a.banned=a.banned if "many" in feat else []
    t=Toss(ctx,c,simcls=af.AFSim); t.files=[]
    put=lambda n,x: open(t.w.root+n,"w",encoding="latin1",newline="").write(x)
    lists=c14.mklists(r,c,t.w.root,put)
    c14.newsim(t,c,lists,None)
    clean=c.text(t.w.root); txt=messy(clean,r,feat)
    want,back=rdcfg.parse(clean),rdcfg.parse(txt)
    x=rdcfg.diff(want,back)
    if x: raise Exception("generator: %s"%x[:2])
    if "longtag" in feat and r.random()<.5: txt=txt.replace("T"*79,"T"*79+"more"); feat.add("longertag")
    put("cm.prefs",txt)
    d=[]; ops=[]; steps=r.randint(1,3); fs=r.randrange(steps) if case["fault"] else -1
    for step in range(steps):
        try: os.unlink(t.w.root+"cm.stats")
        except OSError: pass
        cur=open(t.w.root+"cm.prefs",encoding="latin1",newline="").read(); pre=rdcfg.parse(cur)
        ms=[]; tag=None
        if r.random()<.2 and any(a.kind=="ECHO" for a in c.areas):
            a=r.choice([a for a in c.areas if a.kind=="ECHO"]); tag=a.tag; ops.append("remove")
        else:
            for _ in range(r.choice([1,1,2,4])):
                if r.random()<.25:
                    n=r.choice(c.nodes).addr; m,_t=g.echo(c,n,by(r.choice(["NEW.ONE","new.two",'Q"uo\\te',"S ; P","T"*70]))); ms.append((n,m)); ops.append("new")
                else:
                    n=r.choice(c.nodes); q=c14.request(r,g,c,frm=n); ms.append((q[0],q[1])); ops.append("req")
        old=len(c.areas)
        def go(run):
            if tag: t.snap(); res=run("REMOVE",tag); return res
            return run("TOSS")
        f=[]
        if ms: deliver(g,c,f,ms,bundle=0); t.inbound(f)
        if step!=fs:
            if tag:
                t.snap(); res=t.w.cm("REMOVE",tag); t.sim.now=t.w.now; t.sim.removed(a)
                if runstate(res,d): t.compare(d)
            else: t.run(d)
            now=open(t.w.root+"cm.prefs",encoding="latin1",newline="").read()
            if now!=cur: o.count("rewritten")
            check_file(now,pre,c,t.w.root,d)
            # the rewritten file is accepted and means the same to the program: a run that has nothing to do leaves it alone
            res=t.w.cm("TOSS")
            if runstate(res,d) and open(t.w.root+"cm.prefs",encoding="latin1",newline="").read()!=now: d.append(("cfg","cfg:again","configuration changed by a run without mail"))
            if "onfiguration error" in res.text or "rror in config" in res.text or res.rc: d.append(("cfg","cfg:rejected","rewritten configuration is not accepted: %s"%res.text[-300:]))
            if d: break
        else:
            # same run on a copy of the system with a fault at one of the changes of the configuration
            full=t.w.root.rstrip("/"); import shutil
            cp=full+".cp"; shutil.copytree(full,cp)
            args=("REMOVE",tag) if tag else ("TOSS",)
            res=t.w.inj("count",0,0,*args); good=open(t.w.root+"cm.prefs",encoding="latin1",newline="").read()
            pts=[i+1 for i,(k,p) in enumerate(res.changes) if p.startswith("cm.prefs") and "busy" not in p]
            o.count("fault points",len(pts))
            for n in pts if len(pts)<12 else r.sample(pts,12):
                mode=r.choice(["kill","tear","fail","full","short"]); er=r.choice([errno.ENOSPC,errno.EIO])
                shutil.rmtree(full); shutil.copytree(cp,full); t.w.now-=2
                x=t.w.inj(mode,n,er,*args); o.count("faults:"+mode)
                try: now=open(t.w.root+"cm.prefs",encoding="latin1",newline="").read()
                except OSError: now=None
                what="%s at change %d (%s)"%(mode,n,"%s %s"%res.changes[n-1])
                if now is None: d.append(("cfg","cfg:gone","%s: no configuration file left"%what))
                elif now!=cur and now!=good: d.append(("cfg","cfg:torn","%s: the configuration file is neither the old nor the new one"%what))
                elif now==good and mode in("fail","full","short") and x.failed and x.failed[0][0]=="write" and x.failed[0][1].endswith(".tmp"): d.append(("cfg","cfg:torn","%s: write failed but file complete?"%what))
                if now==cur and good!=cur: o.count("old kept")
                if now==good and good!=cur: o.count("new in force")
            shutil.rmtree(cp); ops.append("fault"); break
    select(d,CATS,o)
    nt=getattr(t.sim,"noted",{})
    o.count("attached",nt.get("attached",0)+nt.get("attached as read-only",0)); o.count("removed",nt.get("feed removed",0)+nt.get("area removed",0)); o.count("comments",txt.count(";"))
    o.key(sorted(feat),ops,sorted(nt.items()))
    for k in feat: o.count("layout:"+k)
    if case["seed"]%150==1: o.sample={"ops":ops,"layout":sorted(feat),"outcomes":nt}
    t.close()
