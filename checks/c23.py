"""C23: received mail cannot make the program touch files outside its directories."""
import random,shutil
from tossck import *
from world import World
from cfg import Area
from c14 import GR
import rdcfg
PROP="C23"; LEVEL="exploration"
RULE="a case is a system among bystander files and a history of tosses and scans bringing hostile names (traversal, absolute paths, shell commands, line ends, format directives) in subjects of file-attaches, area tags, user names, AreaFix requests, packet, bundle and member names; every system call that creates, changes, moves or deletes a file is judged by its normalised path, the whole scratch tree is compared before and after, every flow file entry is resolved; distinct = distinct (calls and directories touched, names used)"
ASSUME=["message files handed to EXECUTE are written under /tmp by the C library's tmpnam","a message the operator writes on this system may attach any file"]
CATS=("*",)
def cases(tier,seed):
    n=4000 if tier=="quick" else 30000
    return [{"seed":seed*1000003+i} for i in range(n)]
PAY=[";touch PWN;","`touch PWN`","$(touch PWN)","|touch PWN","|touch PWN|","'; touch PWN; '","\"; touch PWN; \"","&& touch PWN","|| touch PWN",">PWN","> PWN <","\ntouch PWN\n","';`touch PWN`;\"","\"`touch PWN`\"","'$(touch PWN)'","\\\"; touch PWN; \\\"","\\'; touch PWN; \\'","${IFS};touch${IFS}PWN","&touch PWN&","%s%n%s%n","%a%s%f","$((`touch PWN`))","\rtouch PWN\r","`>PWN`","$(>PWN)","';>PWN;'","\";>PWN;\"","{touch,PWN}","\\`touch PWN\\`","\\;touch PWN;"]
SH8=["$(>PWN)a","`>PWN`aa",";>PWN;aa","&>PWN&aa","|>PWN|aa","\";>PWN;\"","';>PWN;'",">PWNaaaa","\n>PWN\naa","..aaaaaa","%s%s%n%d","~aaaaaaa","-aaaaaaa"]
def trav(r,root,name=None):
    f=name or r.choice(["secret.txt","outside.txt","up2.txt","ar/keep/x.txt","in/sub/inner.txt","pkt/keep.bin","pkt/sub/x","cm.prefs","cm.log","out/keep.txt","tmp/keep.txt","in/keep.zip","in","ar/keep","new","PWN"])
    return r.choice([root+f,"../"+f,"../../"+f,"../../../"+f,"./"+f,"x/../../"+f,"..\\"+f.replace("/","\\"),"..\\..\\"+f.replace("/","\\"),"in/../"+f,"../in/../"+f,f,f.replace("/","\\"),"..//"+f,"sub/../../"+f,"^../"+f,"#"+root+f,"~/"+f,root.replace("/","\\")+f.replace("/","\\"),"../w/../"+f,"\x01../"+f])
def hostile(r,root):
    k=r.random()
    if k<.4: return trav(r,root)
    if k<.8: return r.choice(["","x","a b",".","a.b"])+r.choice(PAY)+r.choice(["","","y"])
    return r.choice(["x\n^"+root+"secret.txt","x\r\n^"+root+"secret.txt","x\n^cm.prefs","x\n^../secret.txt","a\n#\\secret.txt",".","..","/","\\","./","../","...","../..",". ..","-rf","--help","*","?","%d%s%n"*5,"secret.txt"*7,"../"*20+"x","x"*71,"^x","#x","~x","@x","\t../secret.txt","\x0b../secret.txt","\"../secret.txt\"","\"a b\" ../secret.txt","'../secret.txt'",",../secret.txt,","x,../secret.txt","\xff../secret.txt"])
class Tree:
    def __init__(s,base):
        s.f={}
        for d,ds,fs in os.walk(base):
            s.f[d+"/"]=None
            for x in fs:
                p=os.path.join(d,x)
                try: s.f[p]=os.readlink(p) if os.path.islink(p) else open(p,"rb").read()
                except OSError: pass
def okpath(rel,w,c,new=True):
    """may the program create, change or delete this path (relative to the root)?"""
    out=re.escape(c.outbound); doms="|".join(re.escape(k.domain.lower()) for k in c.akas if k.domain)
    node=r"[0-9a-f]{8}"
    for x in [r"cm\.log",r"cm\.stats(\.\w+)?",r"dupes(\.\w+)?",r"cm\.prefs\.\w+|cm\.prefs",
        r"in/[^/]+",r"pkt/[^/]+",r"new/[^/]+",r"tmp/[^/]+",
        r"(?:%s%s)(?:\.[0-9a-f]{3,4})?(?:/(?:%s\.\w+(?:\.tmp)?(?:/(?:%s\.\w+(?:\.tmp)?)?)?)?)?"%(out,"|(?i:"+doms+")" if doms else "",node,node),
        r"ar/[^/]+\.(?:jhr|jdt|jdx|jlr|jhw|cmhw)(?:\.\w+)?",r"ar/[^/]+(?:/(?:\d+\.msg(?:\.\w+)?)?)?"]:
        if re.fullmatch(x,rel): return True
    return False
KEEP={"secret.txt":b"SECRET-1\n","ar/keep/x.txt":b"SECRET-2\n","ar/keep.txt":b"SECRET-3\n","in/sub/inner.txt":b"SECRET-4\n","in/keep.zip":b"SECRET-5\n","pkt/keep.bin":b"SECRET-6\n","pkt/sub/x":b"SECRET-7\n","tmp/keep.txt":b"SECRET-8\n","new/keep.txt":b"SECRET-9\n"}
UP={"../outside.txt":b"SECRET-A\n","../../up2.txt":b"SECRET-B\n","../../../up3.txt":b"SECRET-C\n","../sib/in/x.txt":b"SECRET-D\n"}
REC="""#!/bin/sh
n=$(ls ROOTex | wc -l)
printf '%s\\n' "$@" >ROOTex/$n
exit 0
"""
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r)
    c=g.cfg(nnodes=r.randint(2,5),nareas=r.randint(1,3),switches=[x for x in("ADDTID","FORCEINTL","IMPORTSEENBY","ANSWERRECEIPT","ANSWERAUDIT","NODIRECTATTACH","IMPORTEMPTYNETMAIL","NOROUTE","IMPORTAREAFIX","AREAFIXREMOVE","PATH3D","NOEXPORTNETMAIL","ALLOWKILLSENT","WEEKDAYNAMING","XLATLOCAL") if r.random()<.15])
    c.dupemode=r.choice(["IGNORE","BAD","KILL"]); c.loopmode=r.choice(["IGNORE","LOG+BAD"]); c.dupesize=200
    for k in c.akas:
        if r.random()<.7: k.domain=""
    for n in c.nodes:
        s=lambda: "".join(sorted(r.sample(GR,r.choice([0,1,2,3]))))
        n.afinfo=("pw",s(),s(),s())
        if r.random()<.7: n.defgroup=r.choice(GR)
        n.flags.discard("AUTOADD")
        if r.random()<.8: n.flags.add("AUTOADD")
        n.pktpw=""
    if r.random()<.8: c.fileattach=["*:*/*.*"]
    if r.random()<.8:
        b=r.choice(["JAM","MSG"]); c.areas.append(Area("DEFAULT",c.akas[0].addr,"DEFAULT",b,r.choice(["ar/d_%l","ar/%l","ar/%a","ar/D%8","ar/%a%L"])))
    c.routes=[("*:*/*.*",str(r.choice(c.nodes).addr),c.akas[0].addr)]
    q=r.choice(["'%s'","\"%s\"","%s"]); ex=[]
    base=os.path.join(ctx.base,"x%d"%case["seed"],"p","q")
    top=os.path.join(ctx.base,"x%d"%case["seed"])
    w=World(base,"plain",ctx.bins,c); w.timeout=ctx.timeout; root=w.root; w.setup()
    if r.random()<.6:
        v=r.sample(["%a","%f","%t","%s","%x","%o","%d"],r.randint(1,5))
        c.filters=[('SUBJECT="*"',['EXECUTE "%srec %s"'%(root," ".join((q%x).replace('"','\\"') for x in v))])]
    os.mkdir(root+"ex"); open(root+"rec","w").write(REC.replace("ROOT",root)); os.chmod(root+"rec",0o755)
    for p,x in list(KEEP.items())+list(UP.items()):
        p=os.path.normpath(root+p); os.makedirs(os.path.dirname(p),exist_ok=True); open(p,"wb").write(x)
    os.makedirs(root+c.outbound,exist_ok=True)
    # the area list of an uplink offers hostile names too
    w.write_cfg(); cfg0=cfglines(root)
    d=[]; key=set(); used=[]; S=b"SECRET-"
    nets=[a for a in c.areas if a.kind=="NETMAIL"]
    pool=[n.addr for n in c.nodes]+[k.addr for k in c.akas]+[g.addr()]
    by1=lambda x:x.encode("latin1").replace(b"\0",b"")
    for step in range(r.randint(1,3)):
        ms=[]; attach=set()
        for _ in range(r.randint(1,6)):
            n=r.choice(c.nodes).addr; k=r.random(); H=lambda cut=71: by1(hostile(r,root))[:cut]
            if k<.45:
                subj=H() if r.random()<.7 else b" ".join([by1(trav(r,root))[:40],b"good%d.zip"%r.randint(0,3)])[:71]
                at=ATTACH|r.choice([0,PVT,LOCAL,PVT|LOCAL,0xffff,LOCAL|PVT|KILLSENT,RREQ])
                dst=r.choice(pool)
                m=mkmsg(r.choice(pool),dst,at,g.date(),H(35),H(35),subj,by("\x01INTL %d:%d/%d %d:%d/%d\r"%(dst[:3]+n[:3]))+g.token()+b"\r")
                used.append(subj)
            elif k<.55:
                body=b"".join(r.choice([b"+",b"-",b"",b"%RESCAN ",b"%PWD ",b"%REDIRECT ",b"%COMPRESS ",b"%INFO ",b"%HELP ",b"="])+H(60)+r.choice([b"\r",b"\r\n"]) for _ in range(r.randint(1,5)))
                m=mkmsg(n,r.choice(c.akas).addr,PVT,g.date(),b"Joe",b"AreaFix",b"pw",body)
            else:
                tag=H(79) if r.random()<.7 else by1(r.choice([a.tag for a in c.areas]))
                m=mkmsg(n,r.choice(c.akas).addr,(ATTACH|LOCAL if r.random()<.3 else 0),g.date(),H(35),H(35),H(),b"AREA:"+tag.replace(b"\r",b"")+b"\r"+g.token()+b"\r * Origin: "+H(40).replace(b"\r",b"")+b" ("+by(n.s3())+b")\rSEEN-BY: %d/%d\r"%(n.n,n.f)); used.append(tag)
            ms.append((n,m))
        f=[]; deliver(g,c,f,ms,bundle=.3)
        ff=[]
        for nm_,x in f:
            if nm_.endswith(".pkt") and r.random()<.3: nm_=r.choice(SH8)+".pkt"
            elif is_arc(nm_) and r.random()<.5: nm_=nm_[:11]+r.choice(";&|`$(<>'\"\\ *?\n#~")
            if nm_ not in [y[0] for y in ff]: ff.append((nm_,x))
        if r.random()<.4:
            # a bundle whose members have odd names, one of them no mail packet at all
            good=[x for y,x in f if y.endswith(".pkt")]
            mem=[(r.choice(SH8)+r.choice([".pkt",".PKT",".pk"]),r.choice(good+[b"junk",b""]) if good else b"junk") for _ in range(r.randint(1,3))]
            mem=list(dict(mem).items())
            ff.append(("%08x.%s%s"%(r.getrandbits(32),r.choice(["mo","tu","SU"]),r.choice("0123;&|`$*")),arc_pack([(x,y) for x,y in mem])))
        for nm_,x in ff: w.put(nm_,x)
        for i in range(4):
            if r.random()<.5: w.put("good%d.zip"%i,b"good file %d"%i)
        if r.random()<.2: w.put("x",b"attached x")
        ops=[["TOSS"]]+([["SCAN"]] if r.random()<.5 else [])
        for op in ops:
            t0=Tree(top); ex0=len(os.listdir(root+"ex"))
            x=w.inj("count",0,0,*op)
            runstate(x,d)
            t1=Tree(top)
            for call,p in x.changes+[("rename from",p) for p in x.sources]:
                if p.startswith("/tmp/") and c.filters: continue
                full_=os.path.normpath(os.path.join(root,p)) if p else root
                o.count("file changes judged"); key.add((call,os.path.dirname(os.path.relpath(full_,root))[:6]))
                rel=os.path.relpath(full_,root)
                if rel.startswith("..") or not okpath(rel,w,c): d.append(("path","path:"+call,"%s: %s of %s"%(" ".join(op),call,p)))
                if "/../" in "/"+p: d.append(("path","path:dots","%s: %s leaves a directory: %s"%(" ".join(op),call,p)))
            for p in sorted(set(t0.f)|set(t1.f)):
                a,b=t0.f.get(p,0),t1.f.get(p,0)
                if a==b: continue
                rel=os.path.relpath(p,root)
                if os.path.dirname(rel)=="ex" or rel=="ex": o.count("commands run",1 if rel!="ex" else 0); continue
                if os.path.basename(rel).startswith("PWN") and not rel.startswith(("ar/","in/","pkt/")) : d.append(("cmd","cmd:foreign","%s: a received name was executed as a command (%s)"%(" ".join(op),rel)))
                elif rel.startswith("..") or not okpath(rel+("/" if p.endswith("/") and not rel.endswith("/") else ""),w,c) and not okpath(rel,w,c): d.append(("path","path:tree","%s: %s was %s"%(" ".join(op),rel,"created" if a==0 else "deleted" if b==0 else "changed")))
                elif rel in KEEP: d.append(("path","path:keep","%s: the bystander file %s was changed or removed"%(" ".join(op),rel)) if not (rel=="in/keep.zip" and any(b"keep.zip" in u for u in used) or rel=="pkt/keep.bin" and False) else ("skip","skip",""))
                elif isinstance(b,bytes) and S in b and not (S in a if isinstance(a,bytes) else False) and (b.strip()+b"\n") in(list(KEEP.values())+list(UP.values())) and not (rel=="pkt/keep.zip" and b==KEEP["in/keep.zip"]): d.append(("path","path:copied","%s: a file from outside was copied to %s"%(" ".join(op),rel)))
            d[:]=[y for y in d if y[0]!="skip"]
            # flow files
            for p,b in t1.f.items():
                if b is None or not re.search(r"\.[fhdc]lo$",p) or not os.path.relpath(p,root).startswith(tuple([c.outbound]+[k.domain.lower() for k in c.akas if k.domain])): continue
                for l in b.split(b"\n"):
                    if not l: continue
                    l=l[1:] if l[:1] in b"#^-" else l
                    q_=lat(l); o.count("flow entries judged")
                    if re.sub(r"/(\./+|/+)+","/",os.path.dirname(q_)) not in(root+"in",root+"pkt") or os.path.basename(q_) in("",".",".."): d.append(("flow","flow:outside","a flow file lists %r"%q_))
                    elif os.path.isdir(q_): d.append(("flow","flow:dir","a flow file lists the directory %r"%q_))
            c1=cfglines(root)
            if c1!=cfg0: d.append(("config","config:lines","lines of the configuration changed: %r"%sorted(set(c1)^set(cfg0))[:3]))
            if d: break
        if d: break
    select(d,CATS,o)
    o.count("hostile names",len(used)); o.count("areas now",len(rdcfg.parse(open(root+"cm.prefs",encoding="latin1").read()).areas) if not d else 0)
    o.key(sorted(key),sorted(used)[:4])
    if case["seed"]%150==1: o.sample={"touched":sorted(map(str,key))[:12],"names":[repr(u) for u in used[:6]]}
    if not os.environ.get("CMV_KEEP"):
        shutil.rmtree(top,ignore_errors=True)
def cfglines(root):
    """the lines AreaFix and auto-adding have no business with"""
    return [l for l in open(root+"cm.prefs",encoding="latin1",newline="\n").read().split("\n") if not re.match(r"\s*(AREA|UNCONFIRMED|EXPORT|IMPORT|BANNED|MANDATORY|DEFREADONLY|IGNORE|KEEP|DESCRIPTION|GROUP\b|NODE\b|AREAFIXINFO|DEFAULTGROUP|REMOTESYSOP|NETMAIL|LOCALAREA|BADAREA|;|$)",l)]
