"""C14: AreaFix obeys only authorised requests and does exactly what was asked."""
import random
from tossck import *
import af,rdcfg
PROP="C14"; LEVEL="exploration"
RULE="a case is a random configuration (groups, access lists, bans, mandatory/read-only areas, area lists, robot names) and a history of requests and list commands; after every run the rewritten configuration, every answer and all mail are compared with the model; distinct = distinct (request outcomes, switches)"
CATS=("*",)
SW=["ALLOWRESCAN","AREAFIXREMOVE","REMOVEWHENFEED","INCLUDEFORWARD","FORWARDPASSTHRU","IMPORTAREAFIX","ADDTID","FORCEINTL","STRIPRE","NOROUTE"]
GR="ABCXZ"
def cases(tier,seed):
    n=8000 if tier=="quick" else 60000
    return [{"seed":seed*1000003+i} for i in range(n)]
def extra(r,c):
    """areas requests never touch, with settings of their own, anywhere in the file"""
    x=Area("LOCALX",c.akas[0].addr,"LOCAL","JAM","ar/lx")
    c.areas.insert(r.randint(0,len(c.areas)),x)
    r.random()<.4 and r.shuffle(c.areas)
    for a in c.areas:
        if a.kind=="ECHO" or r.random()<.5: continue
        if r.random()<.6: a.desc=r.choice(["Own text","x"*70,"\xe5"])
        if r.random()<.5: a.keepnum=r.choice([1,33])
        if r.random()<.5: a.keepdays=r.choice([2,44])
        if a.kind=="LOCAL" and r.random()<.4: a.group=r.choice(GR)
def config(r,g,base=None):
    c=g.cfg(nnodes=r.randint(2,6),nareas=r.randint(2,6),switches=[x for x in SW if r.random()<(.6 if x=='ALLOWRESCAN' else .35)],base=base)
    c.routes=[("*","*:*/*.*",c.akas[0].addr)] if r.random()<.8 else [("%d:*"%c.akas[0].addr.z,"*:*/*.*",c.akas[-1].addr)]
    c.dupemode="IGNORE"; c.sysop=r.choice(["Test Sysop","S","X"*34])
    c.packers.append(("ZIP2","pk a %a %f","pk x %a","CMPK"))
    if r.random()<.3: c.packers.append(("RDONLY","","pk x %a","ZZ"))
    c.areafixnames=r.choice([["AreaFix"],["AreaFix","CrashMail"],["Area Manager","AREAFIX"]])
    c.groupnames={x:r.choice(["Group "+x,"","Local \xe5","G"*60]) for x in GR if r.random()<.7}
    c.afmaxlines=r.choice([0,0,0,8,12,20,50])
    for n in c.nodes:
        s=lambda: "".join(sorted(r.sample(GR,r.choice([0,1,2,3,4,5]))))
        if r.random()<.9: n.afinfo=(r.choice(["","afpw","Secret","two words","x"*39,'q"uote','b\\s',"p\xe5ss"]),s(),s(),s())
        if r.random()<.4: n.defgroup=r.choice(GR)
        if r.random()<.5: n.raf=(r.choice(["AreaFix","Remote Mgr"]),r.choice(["rpw","","x y"]))+((True,) if r.random()<.4 else ())
        if r.random()<.6: n.rsysop=r.choice(["Joe Sys","A B C","\xf6"*10])
        for f in("FORWARDREQ","SENDAREAFIX","SENDTEXT","NOTIFY"):
            if r.random()<(.7 if f=="FORWARDREQ" else .4): n.flags.add(f)
        if "SENDAREAFIX" in n.flags and not n.raf: n.raf=("AreaFix","rpw")
        if "SENDTEXT" in n.flags and not n.rsysop: n.rsysop="Joe Sys"
    for a in c.areas:
        if a.kind!="ECHO": continue
        a.exports=[e for e in a.exports if r.random()<.55]
        if r.random()<.9: a.group=r.choice(GR)
        if r.random()<.6: a.desc=r.choice(["A conference","d"*70,"with \\ slash",'say "hi"',"\xe5\xe4\xf6","50% off","x"])
        if r.random()<.2: a.banned=[x.addr for x in r.sample(c.nodes,r.randint(1,len(c.nodes)))]
        for f,p in(("MANDATORY",.15),("DEFREADONLY",.2)):
            if r.random()<p: a.flags.add(f)
        if r.random()<.15: a.keepnum=r.choice([1,100]); a.keepdays=r.choice([0,7])
        if r.random()<.1: a.unconf=True
    c.mix=None
    extra(r,c)
    if r.random()<.6:
        d=Area("DEFAULT",c.akas[0].addr,"DEFAULT",r.choice(["JAM","MSG",None]),"ar/d_%l",exports=[("",x.addr) for x in r.sample(c.nodes,r.randint(0,1))],flags=[f for f in("MANDATORY","DEFREADONLY","IGNOREDUPES","IGNORESEENBY") if r.random()<.2],desc=r.choice(["","Default desc"]))
        if not d.base: d.path=None
        c.areas.append(d)
    return c
from cfg import Area
FWD=["NEW.AREA","fwd_1","FWD.TWO","Z"*40,"FIDO.TEST","L"*75]
def mklists(r,c,w_root,put):
    L=[]
    for i in range(r.choice([0,1,1,2,3])):
        n=r.choice(c.nodes).addr; ents=[(t,r.choice(["","Some desc","d"*80])) for t in r.sample(FWD,r.randint(1,4))]
        gr=r.choice(list(GR)+[""]); fw=r.random()<.8; de=r.random()<.5
        put("list%d"%i,"".join(t+(r.choice([" ","\t","   "])+d if d else "")+"\n" for t,d in ents))
        c.arealists.append('%s "%slist%d"%s%s%s'%(n,w_root,i,' GROUP "%s"'%gr if gr else ""," FORWARD" if fw else ""," DESC" if de else ""))
        L.append((n,ents,gr,fw,de))
    return L
def areaname(r,c):
    x=r.random(); t=r.choice([a.tag for a in c.areas if a.kind=='ECHO']*2+[a.tag for a in c.areas]+FWD)
    if x<.1: return r.choice(FWD)
    if x<.6: return t
    if x<.7: return by(t).swapcase().decode("latin1")
    if x<.78: return t[:r.randint(1,len(t))]+"*"
    if x<.84: return r.choice(["*","?","T*","F*","????","TEST?","*X"])
    if x<.9:
        i=r.randrange(len(t)); return t[:i]+"?"+t[i+1:]
    return r.choice(["NOSUCH","","BAD","NETMAIL0",t+"x",t[:-1],"q"*97,t+" "])
def command(r,c,rescan=True):
    x=r.random()
    if x<.72:
        l=r.choice(["+","","","-","-","="])+areaname(r,c)
        if rescan and r.random()<.3: l+=r.choice([",R=2",", r=1 ",",R=100",",R=0",",R=x",",foo",","])
        return l
    return r.choice(["%LIST","%QUERY","%UNLINKED","%HELP","%INFO","%PAUSE","%RESUME","%PWD newpw","%PWD","%PWD \"a b\"","%PWD "+"y"*50,'%PWD q"x\\z',"%COMPRESS PK","%COMPRESS zip2","%COMPRESS NONE","%COMPRESS ?","%COMPRESS nix","%COMPRESS","%COMPRESS RDONLY","%RESCAN" if rescan else "%list","%FOO","%","%list x"," %query","%"*40])
def request(r,g,c,frm=None,rescan=True,**kw):
    n=frm or (r.choice(c.nodes) if r.random()<.9 else None)
    o=n.addr if n else g.addr()
    pw=(n.afinfo[0] if n and n.afinfo else "")
    q='"%s"'%pw.replace("\\","\\\\").replace('"','\\"') if " " in pw or '"' in pw or "\\" in pw else pw
    x=r.random()
    subj=q if x<.8 else q.swapcase() if x<.84 else q+r.choice([" -q"," -l"," -L"," -x"]) if x<.9 else r.choice(["wrong","",q+"x",q[:-1],"\""+q," -q"])
    lines=[command(r,c,rescan) for _ in range(r.choice([0,1,1,2,3,5]))]
    if r.random()<.05: lines.insert(0,"x"*r.choice([98,99,100,150,250]))
    if r.random()<.3: lines+=["---"]+([command(r,c)] if r.random()<.5 else [])
    elif r.random()<.1: lines+=["--- tear"]
    nl=r.choice(["\r","\r","\r","\r\n","\n"])
    t="".join(l+nl for l in lines)
    if r.random()<.1: t=t.rstrip("\r\n")
    me=r.choice(c.akas).addr
    to=r.choice(c.areafixnames)
    if r.random()<.1: to=to.upper()
    if r.random()<.04: to=to+"x"
    if r.random()<.05: me=g.addr()
    kl=r.random()<.5
    m,_=g.net(c,o,me,attr=r.choice([0,PVT,PVT|KILLSENT]),to=by(to),subj=by(subj)[:71],body=by(t),kl=kl,frm=r.choice([b"Joe",b"A"*35,b"\xe5",b"AreaFix"]),intl=True,**kw)
    return o,m,len(lines)
def newsim(t,c,lists,help):
    t.sim.lists=lists; t.sim.root=t.w.root; t.sim.help=help
    def base(a):
        ms=t.w.area_msgs(a)
        if a.base=="JAM":
            j=t.w.jam(a); return [(m.num,m) for m in ms],(j.base+len(j.dx)//8-1 if j else 0)
        return [(m.num,m) for m in ms if m.num>=2],max([0]+[m.num for m in ms])
    t.sim.base=base
def check_cfg(t,d,c):
    txt=open(t.w.root+"cm.prefs",encoding="latin1").read()
    try: got=rdcfg.parse(txt)
    except Exception as e: d.append(("cfg","cfg:unreadable","rewritten configuration cannot be read: %r\n%s"%(e,txt[-600:]))); return
    # an area removed and created again in the same run keeps its place
    h={x["tag"].lower():i for i,x in enumerate(got.areas)}; back=[a for a in c.areas if getattr(a,"auto",False) and not getattr(a,"placed",False)]
    c.areas.sort(key=lambda a:h.get(a.tag.lower(),10**6)) if back else None
    for a in back: a.placed=True
    for sg,m in rdcfg.diff(af.parsed(c,t.w.root),got): d.append(("cfg",sg,m))
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); c=config(r,g)
    rot=r.choice([None,None,"ok"])
    t=Toss.__new__(Toss); tmp={}
    help=None
    if r.random()<.6: c.helpfile="help.txt"
    lists=[]
    # area lists need the scratch directory, so the system is created first
    t.__init__(ctx,c,simcls=af.AFSim); t.files=[]
    put=lambda n,x: open(t.w.root+n,"w",encoding="latin1").write(x)
    if c.helpfile and r.random()<.8:
        help=["line one","","50% %s %n","\xe5"*60]; put("help.txt","\n".join(help)+"\n")
    lists=mklists(r,c,t.w.root,put); t.w.write_cfg()
    newsim(t,c,lists,help)
    d=[]; ops=[]
    for step in range(r.randint(1,4)):
        try: os.unlink(t.w.root+"cm.stats")
        except OSError: pass
        x=r.random()
        es=[a for a in c.areas if a.kind=="ECHO" and a.exports and not a.unconf]
        if (x<.2 or step==0 and x<.5) and es:
            ms=[]
            for _ in range(r.randint(1,5)):
                a=r.choice(es); n=r.choice(a.exports)[1]; m,_t=g.echo(c,n,by(a.tag)); ms.append((n,m))
            f=[]; deliver(g,c,f,ms,bundle=0); t.inbound(f); t.run(d); ops.append("t")
        elif x<.3:
            typ=r.choice(["QUERY","LIST","UNLINKED","HELP","INFO"]); k=r.choice(["ALL"]+[n.addr for n in c.nodes])
            t.snap(); res=t.w.cm("SEND"+typ,str(k)); t.sim.now=t.w.now; t.sim.cmdlist(k,{"LIST":"FULL"}.get(typ,typ)); ops.append("send"+typ)
            if runstate(res,d): t.compare(d)
        elif x<.36 and any(a.kind=='ECHO' for a in c.areas):
            a=r.choice([a for a in c.areas if a.kind=="ECHO"]); tag=r.choice([a.tag,a.tag,a.tag,"NOSUCH","BAD"]); t.snap(); res=t.w.cm("REMOVE",tag); t.sim.now=t.w.now
            if tag==a.tag: t.sim.removed(a)
            ops.append("remove"); o.count("removed")
            if runstate(res,d): t.compare(d)
        else:
            ms=[]
            for _ in range(r.choice([1,1,1,2,3])):
                n,m,k=request(r,g,c); ms.append((n,m)); o.count("requests"); o.count("lines",k)
            f=[]; deliver(g,c,f,ms,bundle=0); t.inbound(f); t.run(d); ops.append("r")
        check_cfg(t,d,c)
        if d: break
    select(d,CATS,o)
    nt=getattr(t.sim,"noted",{})
    for k,v in nt.items(): o.count("outcome:"+(k if len(k)<14 else k[:14]),v)
    o.count("answers",sum(1 for e in t.sim.events if e[0]=="auto"))
    o.key(sorted(nt.items()),ops,sorted(c.switches))
    if case["seed"]%150==1: o.sample={"ops":ops,"outcomes":nt,"switches":sorted(c.switches)}
    t.close()
