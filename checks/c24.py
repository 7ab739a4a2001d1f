"""C24: unknown conferences are created or refused exactly as configured."""
import random
from tossck import *
import af,rdcfg
from cfg import Area
from c14 import newsim,check_cfg,GR,extra
PROP="C24"; LEVEL="exploration"
RULE="a case is a random configuration (default areas for all or some groups, default groups, add groups, area lists, creation rights) and a history of tosses bringing mail for unknown, known, odd, colliding and reserved tags, with the operator confirming areas in between; configuration, storage and outbound are compared with the model after every run; distinct = distinct (tags, senders' rights, default used, outcome)"
CATS=("*",)
ASSUME=["the storage place of a new area is read from the rewritten configuration, must follow the default's pattern and must differ from every other area's"]
def cases(tier,seed):
    n=4000 if tier=="quick" else 50000
    return [{"seed":seed*1000003+i} for i in range(n)]
SPECIAL=["NEW.AREA","NEW_AREA","new,area","New.Area","A.B","A_B","A/B","../up","/abs","..","with space","tab\there","quo\"te","back\\slash","semi;colon","per%cent","%a","%l%8","x'y`z","8\xe5\xe4","\xff","BAD","bad","DEFAULT","default","DEFAULT_A","DEFAULT_ZZ","DEFAULTX","NETMAIL0","LOCALX","localx",
 "T"*79,"T"*78+"U","T"*78+"V","L"*85,"q"*60,"Z"*40,"fwd_1","FWD.TWO","GROUP","AREA","NODE","-minus","+plus","=x","*","?","a*","~","\x7f","\x02ctl","x"*30+"."+"y"*30,"x"*30+"_"+"y"*30,"1","!x","@y","%z","$(touch pwn)","|cat"]
def config(r,g):
    c=g.cfg(nnodes=r.randint(2,6),nareas=r.randint(1,4),switches=[x for x in("CHECKSEENBY","STRIPRE","ANSWERRECEIPT") if r.random()<.3])
    c.dupemode=r.choice(["IGNORE","BAD"]); c.dupesize=300
    for n in c.nodes:
        s=lambda: "".join(sorted(r.sample(GR,r.choice([0,1,1,2,3]))))
        if r.random()<.85: n.afinfo=(r.choice(["","pw"]),s(),s(),s())
        if r.random()<.7: n.defgroup=r.choice(GR)
        n.flags.discard("AUTOADD")
        if r.random()<.6: n.flags.add("AUTOADD")
    c.mix=None
    extra(r,c)
    if r.random()<.15: c.areas=[a for a in c.areas if a.kind!="BAD"]
    def dflt(tag,i):
        b=r.choice(["JAM","MSG","JAM","MSG",None])
        p=r.choice(["ar/d%d_%%l","ar/D%d_%%a","ar/d%d_%%8","ar/e%%l%d","ar/%%a%%L_%d","ar/fix%d"])%i
        d=Area(tag,r.choice(c.akas).addr,"DEFAULT",b,p if b else None,exports=[(r.choice(["","!","@"]),x.addr) for x in r.sample(c.nodes,r.choice([0,0,1,2,len(c.nodes)]))],
           flags=[f for f in("MANDATORY","DEFREADONLY","IGNOREDUPES","IGNORESEENBY") if r.random()<.25],desc=r.choice(["","Default desc","d"*77,'q"q\\']),group=r.choice(["","A"]),keepnum=r.choice([0,0,50]),keepdays=r.choice([0,0,14]))
        return d
    if r.random()<.75: c.areas.insert(r.randint(0,len(c.areas)),dflt("DEFAULT",0))
    for i in range(r.choice([0,0,1,2,3])):
        t="DEFAULT_"+"".join(r.sample(GR,r.randint(1,3)))
        if not c.area(t): c.areas.insert(r.randint(0,len(c.areas)),dflt(t,i+1))
    return c
def newpaths(t,c,o):
    """storage places of the areas created in this run, as the configuration now says"""
    def f(d):
        new=[a for a in c.areas if getattr(a,"pat",None) and not getattr(a,"seen",False)]
        if not new: return
        txt=open(t.w.root+"cm.prefs",encoding="latin1").read()
        try: got={x["tag"].lower():x for x in rdcfg.parse(txt).areas}
        except Exception: return
        for a in new:
            a.seen=True; x=got.get(a.tag.lower())
            if x is None or not x["path"] or not a.base: continue
            p=x["path"]; rt=t.w.root
            if not p.startswith(rt): d.append(("cfg","cfg:path","new area %s is stored outside its place: %s"%(a.tag,p))); continue
            p=p[len(rt):]
            if "%8" in a.pat:
                q=re.escape(a.path).replace(re.escape("%8"),"[0-9a-f]{8}")
                ok=re.fullmatch(q+".*",p)
                a.clash=True
            elif a.clash: ok=len(p)>=len(a.path) and p!=a.path or len(rt+p)==79
            else: ok=p==a.path
            if not ok: d.append(("cfg","cfg:path","new area %s is stored in %s, default says %s"%(a.tag,p,a.pat)))
            if any(y is not x and not re.match("DEFAULT(_|$)",y["tag"],re.I) and y["base"] and y["path"].lower()==x["path"].lower() for y in got.values()): d.append(("cfg","cfg:shared","new area %s shares the message base %s with another area"%(a.tag,p)))
            o.count("storage places"); o.count("collisions",1 if a.clash and "%8" not in a.pat else 0)
            a.path=p
    return f
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); c=config(r,g)
    t=Toss(ctx,c,simcls=af.AFSim); t.files=[]
    put=lambda n,x: open(t.w.root+n,"w",encoding="latin1").write(x)
    lists=[]; pool=r.sample(SPECIAL,r.randint(2,8))
    if r.random()<.4: pool+=["NEW.AREA","NEW_AREA"]
    for i in range(r.choice([0,1,1,2])):
        n=r.choice(c.nodes).addr; de=r.random()<.8
        ents=[(x,r.choice(["Some desc","d"*90,"",'"q" \\b'])) for x in r.sample(["NEW.AREA","fwd_1","FWD.TWO","new_area","A.B","1"],3)]
        put("list%d"%i,"".join(x+(r.choice([" ","\t","   "])+d if d else "")+"\n" for x,d in ents))
        c.arealists.append('%s "%slist%d"%s'%(n,t.w.root,i," DESC" if de else "")); lists.append((n,ents,"",False,de))
    t.w.write_cfg(); newsim(t,c,lists,None); t.before=newpaths(t,c,o)
    d=[]; key=[]
    for step in range(r.randint(1,4)):
        if step and r.random()<.5:
            # the operator confirms what arrived
            u=[a for a in c.areas if a.unconf]
            for a in u:
                if r.random()<.6: a.unconf=False; o.count("confirmed")
            t.w.write_cfg()
        n0=len(c.areas); ms=[]
        for _ in range(r.randint(1,6)):
            n=r.choice(c.nodes).addr if r.random()<.9 else g.addr()
            tag=r.choice(pool) if r.random()<.8 else r.choice([a.tag for a in c.areas])
            if r.random()<.15: tag=by(tag).swapcase().decode("latin1")
            if r.random()<.1: tag=" "+tag+"  "
            m,_t=g.echo(c,n,by(tag)); ms.append((n,m)); key.append(tag.lower()[:12])
        f=[]; deliver(g,c,f,ms,bundle=0); t.inbound(f); t.run(d,nosec=r.random()<.05)
        o.count("areas registered",len(c.areas)-n0); o.count("messages",len(ms))
        check_cfg(t,d,c)
        if d: break
    select(d,CATS,o)
    new=[a for a in c.areas if getattr(a,"auto",False)]
    o.count("working at once",sum(1 for a in new if not a.unconf)); o.count("with description",sum(1 for a in new if a.desc)); o.count("with more links",sum(1 for a in new if len(a.exports)>1))
    o.count("reserved tags refused",sum(1 for _,m in t.sim.imports if b"ERROR:Reserved" in m.text))
    o.key(sorted(key),[(a.unconf,a.group,len(a.exports),a.base,sorted(a.flags)) for a in new])
    if case["seed"]%150==1: o.sample={"new":[(a.tag,a.unconf,a.path,[m+str(x) for m,x in a.exports]) for a in new]}
    t.close()
