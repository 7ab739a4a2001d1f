"""C21: statistics."""
import random,struct,time,copy
from tossck import *
from cfg import Area,Node
import model
from model import cstr
PROP="C21"; LEVEL="exploration"
RULE="a case is a history of tosses, scans and configuration changes over up to months of days, the statistics file recomputed after every run, followed by reports in several formats; or a report on a random statistics file. distinct = distinct (counters per area and node, day shifts, report options) combinations"
ASSUME=["fewer than 65536 messages per day and area","the clock does not go backwards by days","times are reported in UTC (the test system's time zone)"]
CATS=("stats","report","run")
DAY=86400
MON="Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
AF=struct.Struct("@80s4HccI8HIqq"); NF=struct.Struct("@4H9Iq")
def cases(tier,seed):
    n=4000 if tier=="quick" else 30000
    return [{"seed":seed*1000003+i} for i in range(n)]
def read(b):
    if b[:4]!=b"CST3": raise ValueError("identifier %r"%b[:4])
    day,n=struct.unpack_from("=II",b,4); p=12; ar=[];no=[]
    for _ in range(n):
        x=AF.unpack_from(b,p); p+=AF.size
        ar.append(dict(tag=lat(cstr(x[0])),aka=A(*x[1:5]),group=lat(x[5].strip(b"\0")),total=x[7],last=list(x[8:16]),dupes=x[16],first=x[17],lastt=x[18]))
    n,=struct.unpack_from("=I",b,p); p+=4
    for _ in range(n):
        x=NF.unpack_from(b,p); p+=NF.size
        no.append(dict(zip(("gn","gnb","sn","snb","ge","geb","se","seb","dupes","first"),x[4:]),addr=A(*x[:4])))
    if p!=len(b): raise ValueError("%d bytes too many"%(len(b)-p))
    return day,ar,no
def pack(day,ar,no):
    o=b"CST3"+struct.pack("=II",day,len(ar))
    for a in ar: o+=AF.pack(by(a["tag"]),*a["aka"],by(a["group"]) or b"\0",b"\0",a["total"],*a["last"],a["dupes"],a["first"],a["lastt"])
    o+=struct.pack("=I",len(no))
    for n in no: o+=NF.pack(*n["addr"],*[n[k] for k in("gn","gnb","sn","snb","ge","geb","se","seb","dupes","first")])
    return o
class Book:
    """what the statistics must be"""
    def __init__(s): s.day=0; s.a={}; s.n={}
    def update(s,cfg,sim,now,pa,pn,ob,here):
        today=now//DAY
        s.a={k:v for k,v in s.a.items() if k in here}
        ar={}
        for a in cfg.areas:
            if a.unconf or a.tag.upper().startswith("DEFAULT") or a.kind=="LOCAL": continue
            x=s.a.get(a.tag.lower()) or dict(total=0,last=[0]*8,dupes=0,first=0,lastt=0)
            for _ in range(min(8,max(0,today-s.day)) if s.day else 0): x["last"]=[0]+x["last"][:7]
            q=sim.astat.get(a.tag,{}); p=pa.get(a.tag,{})
            nt=q.get("NewTexts",0)-p.get("NewTexts",0); nd=q.get("NewDupes",0)-p.get("NewDupes",0)
            x["total"]+=nt; x["last"][0]+=nt; x["dupes"]+=nd
            if nt: x["lastt"]=now; x["first"]=x["first"] or now
            x.update(tag=a.tag,aka=a.aka,group=a.group or ""); ar[a.tag.lower()]=x
        s.a=ar; no={}
        for n in cfg.nodes:
            x=s.n.get(n.addr) or dict(gn=0,gnb=0,sn=0,snb=0,ge=0,geb=0,se=0,seb=0,dupes=0,first=0)
            q=sim.nstat.get(n.addr,{}); p=pn.get(n.addr,{})
            for k,m in(("gn","GotNetmail"),("gnb","GotNetmailBytes"),("sn","SentNetmail"),("ge","GotEchomail"),("geb","GotEchomailBytes"),("se","SentEchomail"),("seb","SentEchomailBytes"),("dupes","Dupes")):
                x[k]+=q.get(m,0)-p.get(m,0)
            if not x["first"] and(x["gn"] or x["sn"] or x["ge"] or x["se"]): x["first"]=now
            x["snb"]=sum(len(m.text) for k in ob.pkts if k.where==n.addr for m in k.msgs if not m.text.startswith(b"AREA:"))
            x["addr"]=n.addr; no[n.addr]=x
        s.n=no; s.day=today
    def compare(s,d,b):
        try: day,ar,no=read(b)
        except Exception as e: d.append(("stats","stats:unreadable",repr(e))); return
        if day!=s.day: d.append(("stats","stats:day","day %d, expected %d"%(day,s.day)))
        ga={a["tag"].lower():a for a in ar}
        if len(ga)!=len(ar) or set(ga)!=set(s.a): d.append(("stats","stats:areas","areas in the file %s, expected %s"%(sorted(a["tag"] for a in ar),sorted(s.a))))
        for k in set(ga)&set(s.a):
            for f in ga[k]:
                if f=="group" and len(s.a[k][f])>1: continue
                if ga[k][f]!=s.a[k][f]: d.append(("stats","stats:area:"+f,"area %s: %s is %s, expected %s"%(k,f,ga[k][f],s.a[k][f])))
        gn={n["addr"]:n for n in no}
        if len(gn)!=len(no) or set(gn)!=set(s.n): d.append(("stats","stats:nodes","nodes in the file %s, expected %s"%(sorted(gn),sorted(s.n))))
        for k in set(gn)&set(s.n):
            for f in s.n[k]:
                if gn[k][f]!=s.n[k][f]: d.append(("stats","stats:node:"+f,"node %s: %s is %s, expected %s"%(k,f,gn[k][f],s.n[k][f])))
# ------------------------------------------------------------------ report
def date(t): x=time.gmtime(t); return "%02d-%s-%02d"%(x[2],MON[x[1]-1],x[0]%100)
def date1(t): x=time.gmtime(t); return "%d-%s-%d"%(x[2],MON[x[1]-1],x[0]%100)
def unit(n): return "%d MB"%(n//1048576) if n>10000000 else "%d KB"%(n//1024) if n>10000 else "%d bytes"%n
def average(last,total,day,first):
    if not day or not first: return 0
    days=day-first; k=min(days,7); t=sum(last[1:k+1])
    if t==0 and total: return total//max(days,1)
    return t//max(k,1)
def report(w,d,r,day,ar,no,o):
    sort=r.choice([None,"a","t","m","d","l","u","T","Average"]); last7=r.random()<.4; noa=r.random()<.15; non=not noa and r.random()<.15
    grp=r.choice([None,None,"A","bc","AZ"])
    a=["cm.stats"]+(["SORT",sort] if sort else [])+(["LAST7"] if last7 else [])+(["NOAREAS"] if noa else [])+(["NONODES"] if non else [])+(["GROUP",grp] if grp else [])
    q=w.run("crashstats",*a); o.count("reports")
    if not runstate(q,d): return
    if q.rc!=0: d.append(("report","report:rc","crashstats %s returned %d: %s"%(a,q.rc,q.text[-300:]))); return
    L=q.out.decode("latin1").split("\n")
    def bad(k,m): d.append(("report","report:"+k,"crashstats %s: %s\n%s"%(" ".join(a),m,"\n".join(L)[:1500])))
    firsts=([] if noa else [x["first"] for x in ar])+([] if non else [x["first"] for x in no]); ft=min([f for f in firsts if f] or [0])
    if "Statistics from %s to %s"%(date(ft),date(day*DAY)) not in L: bad("period","period line missing, expected from %s to %s"%(date(ft),date(day*DAY)))
    rows=[x for x in ar if not grp or x["group"].upper() and x["group"].upper() in grp.upper()]
    for x in rows: x["avg"]=average(x["last"],x["total"],day,x["first"]//DAY)
    if not noa:
        i=[k for k,l in enumerate(L) if l.startswith("=====")]
        if len(i)<2: bad("layout","no area table"); return
        got=L[i[0]+1:i[1]]; tot=L[i[1]+1]; exp={}
        if last7:
            days=["%02d"%time.gmtime((day-c)*DAY)[2] for c in range(1,8)]
            if L[i[0]-1].split()!=["Area"]+days+["Total"]: bad("days","header %r, expected days %s"%(L[i[0]-1],days))
            for x in rows: exp[x["tag"]]="%-33.33s %4d %4d %4d %4d %4d %4d %4d : %5d"%((x["tag"],)+tuple(x["last"][1:])+(sum(x["last"][1:]),))
            t=[sum(x["last"][c] for x in rows) for c in range(1,8)]
            et="%-33.33s %4d %4d %4d %4d %4d %4d %4d : %5d"%(("Totally in all %d areas"%len(rows),)+tuple(t)+(sum(t),))
        else:
            dt=lambda v: date(v) if v else "<Never>"
            for x in rows: exp[x["tag"]]="%-29.30s %-9.9s %-9.9s %7d   %7d %7d"%(x["tag"],dt(x["first"]),dt(x["lastt"]),x["total"],x["avg"],x["dupes"])
            t=[sum(x["last"][c] for x in rows) for c in range(8)]; n=sum(x["total"] for x in rows)
            et="%-42s         %7d   %7d %7d"%("Totally in all %d areas"%len(rows),n,average(t,n,day,ft//DAY),sum(x["dupes"] for x in rows))
        if sorted(got)!=sorted(exp.values()):
            bad("areas","lines unexpected %s\nmissing %s"%([l for l in got if l not in exp.values()][:3],[l for l in exp.values() if l not in got][:3]))
        else:
            key={"a":lambda x:x["tag"].lower(),"t":lambda x:-x["total"],"m":lambda x:-x["avg"],"d":lambda x:-x["first"],"l":lambda x:-x["lastt"],"u":lambda x:-x["dupes"]}[(sort or "a")[0].lower()]
            by_={}
            for x in sorted(rows,key=key): by_.setdefault(exp[x["tag"]],[]).append(key(x))
            sq=[by_[l].pop(0) for l in got]
            if sq!=sorted(sq): bad("order","areas are not sorted by %s"%(sort or "a"))
        if tot!=et: bad("total","total line %r, expected %r"%(tot,et))
    if not non:
        k=L.index("Nodes statistics") if "Nodes statistics" in L else -1
        if k<0: bad("layout","no node part"); return
        e=[]
        for n in sorted(no,key=lambda x:x["addr"]):
            e+=["%-30.40s Statistics since: %s"%("%d:%d/%d.%d"%n["addr"],date1(n["first"]) if n["first"] else "<Never>")]
            e+=["Sent netmails: %d/%s"%(n["sn"],unit(n["snb"])),"Received netmails: %d/%s"%(n["gn"],unit(n["gnb"])),"Sent echomails: %d/%s"%(n["se"],unit(n["seb"])),"Received echomails: %d/%s"%(n["ge"],unit(n["geb"])),"Dupes: %d"%n["dupes"]]
        got=[l.strip() for l in L[k+2:] if l.strip()]
        if got!=[x.strip() for x in e]:
            x=next((z for z in zip(got+[None]*len(e),e+[None]*len(got)) if z[0]!=(z[1] and z[1].strip())),None); bad("nodes","node part has %r, expected %r"%x)
    elif "Nodes statistics" in L: bad("nodes","node part although NONODES")
    o.key("rep",sort,last7,noa,non,bool(grp),min(5,len(rows)),min(5,len(no)))
def canned(r,w,o,d):
    day=r.choice([20000,18993,15000+r.randint(0,6000)]); ar=[];no=[]
    num=lambda: r.choice([0,0,1,r.randint(0,99),r.randint(0,9999)])
    big=lambda: r.choice([0,r.randint(0,12000),r.choice([9999,10000,10001,10239,10240,9999999,10000000,10000001,10485760]),r.randint(0,2**32-1)])
    def ft():
        return r.choice([0,0,(day-r.choice([0,1,2,3,6,7,8,9,100,2000]))*DAY+r.randint(0,DAY-1)])
    tags=set()
    for i in range(r.choice([0,1,2,5,20])):
        t=r.choice(["AREA%d"%i,"fido.%d"%r.randint(0,99),"LONG.AREA.NAME.FOR.THE.REPORT.%d"%i,"x"*79,"b%d"%i])
        if t.lower()in tags: continue
        tags.add(t.lower()); f=ft()
        ar.append(dict(tag=t,aka=A(2,200,207,0),group=r.choice(["","A","B","Z"]),total=num(),last=[num() for _ in range(8)],dupes=num(),first=f,lastt=f+r.choice([0,0,DAY]) if f else 0))
    ad=set()
    for i in range(r.choice([0,1,2,6])):
        a=A(r.randint(1,5),r.choice([1,200,65535]),r.randint(0,5),r.choice([0,0,1,9]))
        if a in ad: continue
        ad.add(a); no.append(dict(addr=a,first=ft(),dupes=num(),**{k:(big() if k[-1]=="b" else num()) for k in("gn","gnb","sn","snb","ge","geb","se","seb")}))
    with open(w.root+"cm.stats","wb") as f: f.write(pack(day,ar,no))
    for _ in range(3): report(w,d,r,day,ar,no,o)
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    if r.random()<.25:
        w=World(ctx.base,"plain",ctx.bins,g.cfg(nnodes=1)); w.timeout=ctx.timeout; w.setup(); d=[]
        canned(r,w,o,d); select(d,CATS,o); w.close(); return
    c=g.cfg(nnodes=r.randint(2,4),nareas=r.randint(1,3),switches=[x for x in("ANSWERRECEIPT","BOUNCEPOINTS","STRIPRE","CHECKSEENBY") if r.random()<.2])
    c.dupemode=r.choice(["BAD","KILL","KILL","IGNORE"]); c.dupesize=1000; c.loopmode="IGNORE"
    for a in c.areas:
        if a.kind=="ECHO" and r.random()<.4: a.group=r.choice("ABZ")
        if a.kind!="ECHO" and r.random()<.3: a.group=r.choice("AB")
    t=Toss(ctx,c); t.files=[]; d=[]; w=t.w; bk=Book(); old=[]; ops=[]; w.now+=r.randint(0,3*DAY)
    for step in range(r.randint(2,6)):
        x=r.choice([0,0,0,1,1,2,5,7,8,9,40,400])*DAY+r.choice([0,3600,r.randint(0,DAY)]); w.now+=x
        pa=copy.deepcopy(t.sim.astat); pn=copy.deepcopy(t.sim.nstat)
        es=[a for a in c.areas if a.kind=="ECHO" and a.exports and not a.unconf]
        k=r.random()
        if k<.2 and step:
            # the operator changes the configuration
            z=r.random()
            if z<.3: c.areas.insert(r.randint(0,len(c.areas)),Area("N%d"%step,c.akas[0].addr,"ECHO",r.choice(["MSG","JAM",None]),"ar/n%d"%step,exports=[("",r.choice(c.nodes).addr)],group=r.choice(["","A"])))
            elif z<.55 and len(es)>1: c.areas.remove(r.choice(es))
            elif z<.75: c.nodes.insert(r.randint(0,len(c.nodes)),Node(A(r.randint(1,3),r.randint(1,999),r.randint(1,999),0)))
            else:
                for a in c.areas: a.unconf=False
            w.write_cfg(); ops.append("cfg")
            es=[a for a in c.areas if a.kind=="ECHO" and a.exports and not a.unconf]
        here=set(a.tag.lower() for a in c.areas)
        k=r.random(); sc=[a for a in c.areas if a.base and not a.unconf and a.kind in("ECHO","NETMAIL")]
        if k<.25 and sc:
            for _ in range(r.randint(1,4)):
                a=r.choice(sc); t.local(g,a,dest=r.choice(c.nodes).addr if a.kind=="NETMAIL" else None)
            t.scan(d); ops.append("scan")
        elif k<.3 and es and any(a.base for a in es):
            a=r.choice([a for a in es if a.base]); t.rescan(d,a,c.node(r.choice(a.exports)[1])); ops.append("rescan")
        else:
            ms=[]
            for _ in range(r.choice([0,1,3,6])):
                z=r.random(); n=r.choice(c.nodes)
                if z<.45 and es: a=r.choice(es); n=c.node(r.choice(a.exports)[1]); m,_t=g.echo(c,n.addr,by(a.tag)); old.append((n.addr,m))
                elif z<.6 and old: n0,m=r.choice(old); n=c.node(n0)
                elif z<.7: m,_t=g.echo(c,n.addr,by(r.choice(["UNKNOWN.AREA","Other"]+[a.tag for a in c.areas if a.kind=="ECHO"])))
                else: m,_t=g.net(c,n.addr,r.choice([k.addr for k in c.akas]*2+[x.addr for x in c.nodes]+[g.addr()]),attr=r.choice([0,PVT,PVT,PVT|RREQ,CRASH]))
                if n is None: continue
                ms.append((n.addr,m))
            f=[]; deliver(g,c,f,ms,bundle=.1)
            if r.random()<.15 and f: f[0]=(f[0][0],f[0][1][:-r.randint(1,60)])
            t.inbound(f); t.run(d,nosec=r.random()<.1); ops.append("toss")
        if any(x[0]=="run" for x in d): break
        bk.update(c,t.sim,w.now,pa,pn,t.ob,here)
        try: b=open(w.root+"cm.stats","rb").read()
        except OSError: b=None
        if b is None: d.append(("stats","stats:missing","no statistics file after %s"%ops))
        else: bk.compare(d,b); o.count("files checked")
        if any(x[0]=="stats" for x in d): break
        if r.random()<.5: report(w,d,r,bk.day,list(bk.a.values()),list(bk.n.values()),o)
    for x in bk.a.values(): o.count("texts counted",x["total"]); o.count("dupes counted",x["dupes"])
    select(d,CATS,o)
    o.key(ops,[(x["total"],x["dupes"],x["last"]) for x in bk.a.values()],[(x["gn"],x["sn"],x["ge"],x["se"],x["dupes"]) for x in bk.n.values()])
    if case["seed"]%400==3: o.sample={"ops":ops,"areas":[(x["tag"],x["total"],x["dupes"],x["last"]) for x in bk.a.values()][:3]}
    t.close()
