"""C27: the area exporter reproduces the configuration, the outbound lister the outbound."""
import random,time
from tossck import *
from cfg import Area,Node,Cfg,Aka
PROP="C27"; LEVEL="exploration"
KINDS=("plain","asan")
RULE="a case runs the area exporter in every format over a random configuration, or the outbound lister over a random outbound, and compares every output line with what the configuration or directory says; distinct = distinct (format, groups, kinds of areas, base types) or (pattern, file kinds, sizes) combinations"
ASSUME=["paths, tags and descriptions of the lengths the tosser itself accepts","outbound directory names of less than 80 characters"]
def cases(tier,seed):
    n=12000 if tier=="quick" else 150000
    return [{"seed":seed*1000003+i,"k":"export" if i%2 else "list"} for i in range(n)]
FMT=["areasbbs","forward","forwardnodesc","golded","timed"]
def lines_for(c,fmt,groups,root):
    out=[]
    for a in c.areas:
        if a.unconf or a.kind=="DEFAULT": continue
        if groups and not (a.group and a.group.upper() in groups.upper()): continue
        path=root+a.path if a.base else ""; ex=" ".join(n.s3() for m,n in a.exports); ed=a.desc.replace('"',"'")
        if fmt=="areasbbs":
            if a.kind in("NETMAIL","LOCAL"): continue
            out.append({"MSG":"%s %s %s"%(path,a.tag,ex),"JAM":"!%s %s %s"%(path,a.tag,ex),None:"#%s %s %s"%(a.tag,a.tag,ex)}[a.base])
        elif fmt.startswith("forward"):
            if a.kind!="ECHO": continue
            out.append(a.tag+(" "+a.desc if a.desc and fmt=="forward" else ""))
        elif not a.base: continue
        elif fmt=="golded":
            out.append('AREADEF %s "%s" %s %s %s %s %s %s'%(a.tag,ed,a.group or "0",{"NETMAIL":"NET","LOCAL":"LOCAL"}.get(a.kind,"ECHO"),{"MSG":"FTS1","JAM":"JAM"}[a.base],path,a.aka,"(Loc Pvt)" if a.kind=="NETMAIL" else "(Loc)"))
        else:
            out.append('%s "%s" %s %s -P%s%s'%({"NETMAIL":"NetArea","LOCAL":"LocalArea"}.get(a.kind,"EchoArea"),ed,a.tag,path,a.aka," -J" if a.base=="JAM" else ""))
    return out
def export_case(r,g,ctx,o,kind):
    c=g.cfg(nnodes=r.randint(1,5),nareas=0); c.areas=[]; tags=set()
    c.sysop=r.choice(["Test Sysop",'A "quoted" man',"S\xe5n \\ x"])
    many=[A(r.randint(1,7),r.randint(1,65535),r.randint(0,65535),r.choice([0,0,0,1,500])) for _ in range(r.choice([5,5,60,300]))]
    for i in range(r.choice([0,1,3,8,25])):
        kd=r.choice(["ECHO","ECHO","ECHO","NETMAIL","LOCAL","BAD","DEFAULT"])
        t={"BAD":r.choice(["BAD","bad"]),"DEFAULT":r.choice(["DEFAULT","default_a","DEFAULT_%d"%i])}.get(kd) or r.choice(["FIDO.","r20_","DEFAULTS","BAD.","x","A&B:","\xc5\xc4"])+"x"*r.choice([0,1,30,60])+str(i)
        if t.lower() in tags: continue
        tags.add(t.lower())
        b=r.choice(["MSG","JAM","JAM",None] if kd in("ECHO","DEFAULT") else ["MSG","JAM"])
        a=Area(t,r.choice(c.akas).addr,kd,b,"ar/a%d%s"%(i,"p"*r.choice([0,0,20])) if b else None,unconf=kd=="ECHO" and r.random()<.15)
        if kd in("ECHO","DEFAULT"): a.exports=[(r.choice(["","","!","@","%"]),x) for x in r.sample(many,r.randint(0,len(many)))]
        if r.random()<.6: a.group=r.choice("ABCXYZabc")
        if r.random()<.6: a.desc=r.choice(["A nice area",'say "hi" \\ there',"x"*77,"D\xe9sc; not a comment","50% off %s","it's"])
        if r.random()<.2: a.keepnum=5
        if r.random()<.2: a.flags.add("IGNOREDUPES")
        if kd=="NETMAIL" and r.random()<.3: a.imports=[g.addr()]
        c.areas.append(a)
    w=World(ctx.base,kind,ctx.bins,c); w.timeout=ctx.timeout; w.setup()
    txt=c.text(w.root)
    L=txt.split("\n"); res=[]
    for l in L:
        k=r.random()
        if k<.03: res.append(r.choice(["; AREA X 1:1/1 MSG x",";GROUP Z","","   ; EXPORT 1:1/1"]))
        elif k<.06: l=l.replace(" ","\t",1)
        elif k<.09 and l and l[0].isupper(): x=l.split(" ",1); l=" ".join([x[0].lower()]+x[1:])
        res.append(l)
    open(w.root+"cm.prefs","w",encoding="latin-1").write("\n".join(res))
    before=open(w.root+"cm.prefs","rb").read()
    for fmt in r.sample(FMT,r.choice([1,2,5])):
        gr=r.choice([None,None,"A","abc","XZ","Q"])
        of=w.root+"export.txt"
        if r.random()<.3: open(of,"w").write("older text\n"*50)
        x=w.run("crashexport",w.root+"cm.prefs",of,fmt if r.random()<.5 else fmt.upper(),*(["GROUP",gr] if gr else []))
        d=[]
        if not runstate(x,d):
            for _,s,m in d: o.bad(s,m)
            break
        o.evals+=1
        if x.rc!=0: o.bad("export:rc","crashexport returned %d: %s"%(x.rc,x.text[-300:])); break
        got=open(of,encoding="latin-1",newline="").read().split("\n")
        if not got[0].startswith("; Generated by CrashExport") or got[1][:2]!="; " or got[2]!="" or got[-1]!="": o.bad("export:frame","unexpected frame %r"%got[:3]); break
        got=got[3:-1]
        want=lines_for(c,fmt,gr,w.root)
        if fmt=="areasbbs": want.insert(0,"Default origin ! "+c.sysop)
        if got!=want:
            i=next((i for i in range(max(len(got),len(want))) if i>=len(got) or i>=len(want) or got[i]!=want[i]))
            o.bad("export:"+fmt,"format %s group %s: line %d is %r, expected %r (%d lines, expected %d)"%(fmt,gr,i,got[i][:200] if i<len(got) else None,want[i][:200] if i<len(want) else None,len(got),len(want)))
        o.count("export:"+fmt); o.count("exported areas",len(want))
        o.key(fmt,gr,sorted((a.kind,str(a.base),a.unconf,a.group,bool(a.desc)) for a in c.areas))
    if open(w.root+"cm.prefs","rb").read()!=before: o.bad("export:config","the configuration was changed")
    if r.random()<.02: o.sample={"areas":len(c.areas),"formats":fmt if c.areas else None}
    w.close()
TY={"clo":"Crash","dlo":"Direct","flo":"Normal","hlo":"Hold","cut":"Crash","dut":"Direct","out":"Normal","hut":"Hold","req":"Request"}
def unit(i): return "%dM"%(i//1048576) if i>10000000 else "%dK"%(i//1024) if i>10000 else "%d"%i
def fld(p,n):
    """does pattern field p match number n"""
    s=str(n)
    if p=="": return True
    return re.fullmatch("".join(".*" if x=="*" else "." if x=="?" else re.escape(x) for x in p.split("*")[0])+(".*" if "*" in p else ""),s) is not None
def pmatch(pat,a):
    if pat is None: return True
    if pat=="*": return True
    z="*"
    if ":" in pat: z,pat=pat.split(":")
    if "/" not in pat:          # zone and net only
        return fld(z,a.z) and fld(pat,a.n)
    n,f=pat.split("/"); p="0"
    if "." in f: f,p=f.split(".")
    return fld(z,a.z) and fld(n,a.n) and fld(f,a.f) and fld(p,a.p)
def list_case(r,g,ctx,o,kind):
    c=g.cfg(nnodes=1,nareas=0)
    w=World(ctx.base,kind,ctx.bins,c); w.timeout=ctx.timeout; w.setup()
    d=w.root+"ob"; os.mkdir(d); zone=r.choice([None,1,2,7,4095]); z=zone or 2
    os.mkdir(w.root+"files"); ents=[]; nfile=0
    def mk(size):
        nonlocal nfile
        nfile+=1; p=w.root+"files/f%d.bin"%nfile
        with open(p,"wb") as f: f.truncate(size)
        return p
    pool=[(r.choice([1,200,204,65535,r.randint(1,65535)]),r.choice([0,1,12,65535,r.randint(0,65535)])) for _ in range(r.randint(1,6))]
    def size(): return r.choice([0,1,999,9999,10000,10001,12345,1048576,9999999,10000000,10000001,30000000]) if r.random()<.7 else r.randint(0,20000)
    t0=1780000000
    for _ in range(r.choice([0,1,4,10,20])):
        n,f=r.choice(pool); ext=r.choice(list(TY)); pt=r.choice([0,0,0,1,10,65535])
        up=r.random()<.2; hx="%04X%04X"%(n,f) if r.random()<.2 else "%04x%04x"%(n,f)
        E=ext.upper() if up else ext
        if pt:
            sub=next((x for x in os.listdir(d) if x.lower()==hx.lower()+".pnt"),None) or hx+r.choice([".pnt",".PNT"])
            os.makedirs(d+"/"+sub,exist_ok=True); rel=sub+"/%08x.%s"%(pt,E)
        else: rel=hx+"."+E
        if any(e[0].lower()==rel.lower() for e in ents): continue
        full=d+"/"+rel; items=[]; up="../"
        if ext in("clo","dlo","flo","hlo"):
            nl=r.choice(["\n","\r\n"]); L=[]
            for _ in range(r.choice([0,1,2,5])):
                m=r.choice(["","^","#","-"])
                k=r.random()
                if k<.7:
                    s=size(); p=mk(s)
                elif k<.8: s=None; p=w.root+"files/missing%d"%r.randint(1,99)
                else:
                    s=r.randint(0,500); nfile+=1; p="near%d.dat"%nfile
                    with open(os.path.dirname(full)+"/"+p,"wb") as q: q.truncate(s)
                items.append((m,p,s)); L.append(m+p)
                if r.random()<.1: L.append("")
            b=nl.join(L)+(nl if L and r.random()<.9 else "")
            open(full,"w",newline="").write(b); sz=len(b)
        elif ext=="req":
            L=["FILE%d.ZIP%s"%(i,r.choice([""," !pw"," +123"])) for i in range(r.choice([0,1,3,9]))]; items=L
            open(full,"w").write("".join(x+"\n"+("\n" if r.random()<.1 else "") for x in L)); sz=0
        else:
            sz=size()
            with open(full,"wb") as q: q.truncate(sz)
        tm=t0+r.randint(-3*10**8,10**6); os.utime(full,(tm,tm))
        ents.append((rel,A(z,n,f,pt),ext,tm,sz,items))
    # things that are not mail
    for x in r.sample(["00c80001.bsy","readme.txt","00c80001.outx","c80001.out","00c80001.fl","00c80001.pkt","0000fe"],r.randint(0,3)):
        open(d+"/"+x,"w").write("x")
    pat=None
    if r.random()<.7:
        e=r.choice(ents)[1] if ents and r.random()<.8 else A(z,1,1,0)
        def fz(v):
            s=str(v); k=r.random()
            if k<.5: return s
            if k<.7: return "*"
            if k<.8: return s[:-1]+"?"
            if k<.9: return s[:1]+"*"
            if k<.95: return s+"?"
            return "?"*len(s)
        pat=r.choice(["*","%s:%s"%(fz(e.z),fz(e.n)),"%s:%s/%s"%(fz(e.z),fz(e.n),fz(e.f)),"%s:%s/%s.%s"%(fz(e.z),fz(e.n),fz(e.f),fz(e.p)),"%s/%s"%(fz(e.n),fz(e.f)),"%s/%s.%s"%(fz(e.n),fz(e.f),fz(e.p))])
    vb=r.random()<.5; env={}
    args=[]
    if r.random()<.3: env["CMOUTBOUND"]=d
    else: args.append(d)
    if zone:
        if r.random()<.3: env["CMOUTBOUNDZONE"]=str(zone)
        else: args+=["ZONE",str(zone)]
    if pat: args+=["PATTERN",pat]
    if vb: args.append(r.choice(["VERBOSE","verbose"]))
    x=w.run("crashlistout",*args,env=env or None)
    dd=[]
    if not runstate(x,dd):
        for _,s,m in dd: o.bad(s,m)
        w.close(); return
    got=x.text.split("\n")
    sel=[e for e in ents if pmatch(pat,e[1])]
    blocks=[]; TB=TF=TR=0
    for rel,a,ext,tm,sz,items in sel:
        if ext=="req": bf="-/%d"%len(items); TR+=len(items)
        elif ext[1:]=="lo":
            q=[s for m,p,s in items if s is not None]; bf="%s/%d"%(unit(sum(q)),len(q)); TB+=sum(q); TF+=len(q)
        else: bf=unit(sz)+"/1"; TB+=sz; TF+=1
        l=["%-8.8s %-17.17s %-16.16s %7.7s   %s"%(TY[ext],a.s3(),time.strftime("%d-%b-%y %H:%M",time.gmtime(tm)),bf,rel)]
        if vb:
            if ext=="req": l+=[" "+i for i in items]+[""]
            elif ext[1:]=="lo": l+=[" %-39.39s %10s   %s"%(p,unit(s) if s is not None else "Not found",{"":"","#":"(To be truncated)","^":"(To be deleted)","-":"(To be deleted)"}[m]) for m,p,s in items]+[""]
            else: l.append("")
        blocks.append((tuple(a),l))
    o.evals+=1; o.count("listings"); o.count("entries shown",len(sel)); o.count("entries hidden",len(ents)-len(sel))
    def bad(s,m): o.bad("list:"+s,m+" (%s)"%" ".join(str(y) for y in args).replace(w.root,""))
    if x.rc!=0: bad("rc","returned %d: %s"%(x.rc,x.text[-300:])); w.close(); return
    body=got[4:]
    if not sel:
        if body!=["Outbound directory is empty.",""]: bad("empty","nothing matches but %r was listed"%body[:3])
    else:
        tot="Totally %s bytes in %d files to send, %d requests."%(unit(TB),TF,TR)
        if got[-2:]!=[tot,""]: bad("total","%r instead of %r"%(got[-2:],tot))
        body=body[:-2]
        if not vb:
            if body[-1:]!=[""]: bad("frame","%r"%body[-2:])
            body=body[:-1]
        # split in entries: a line whose first word is a type
        ob=[]
        for l in body:
            if re.match(r"(Crash|Direct|Normal|Hold|Request) +\d+:\d+/\d+",l): ob.append([l])
            elif ob: ob[-1].append(l)
            else: bad("stray","line %r"%l)
        wl=sorted(b for _,b in blocks); gl=sorted(ob)
        if wl!=gl:
            m=[b for b in wl if b not in gl]; e=[b for b in gl if b not in wl]
            bad("entries","missing %r unexpected %r"%(m[:1],e[:1]))
        else:
            ad=[next(k for k,b in blocks if b==y) for y in ob]
            if ad!=sorted(ad): bad("order","entries are not sorted by address: %s"%ad[:8])
    o.key(pat,vb,zone,sorted((e[2],e[1].p>0,len(e[5])) for e in ents))
    if r.random()<.02: o.sample={"args":args,"entries":[e[0] for e in ents][:6],"shown":len(sel)}
    w.close()
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    kind="asan" if case["seed"]%8==3 else "plain"
    (export_case if case["k"]=="export" else list_case)(r,g,ctx,o,kind)
