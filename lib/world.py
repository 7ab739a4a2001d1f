"""A scratch system: runs the real programs on a configuration and reads back everything they leave."""
import os,sys,re,shutil,signal,subprocess,tempfile,struct,resource,time
from fido import *
import model
ASAN="detect_leaks=0:detect_odr_violation=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:hard_rss_limit_mb=1500:max_allocation_size_mb=1024"
MSAN="strict_string_checks=1:exitcode=99:abort_on_error=0:handle_abort=1:hard_rss_limit_mb=1500:max_allocation_size_mb=1024:allocator_may_return_null=1"
UBSAN="print_stacktrace=1:halt_on_error=1:exitcode=99"
T0=1780000000
class Res: pass
class World:
    n=0
    def __init__(s,base,kind="plain",bins=None,cfg=None):
        """base: scratch directory of this worker; bins: directory of binaries"""
        World.n+=1
        s.root=os.path.join(base,"w%d"%World.n)+"/"
        s.bins=bins[kind] if isinstance(bins,dict) else bins
        s.cfg=cfg; s.now=T0; s.files=[]; s.seq=0; s.runs=[]
        os.makedirs(s.root)
        for d in("in","out","tmp","pkt","new","ar"): os.mkdir(s.root+d)
        s.env0={"PATH":s.bins+":/usr/bin:/bin","TZ":"UTC","HOME":s.root,"LANG":"C","ASAN_OPTIONS":ASAN,"UBSAN_OPTIONS":UBSAN,"MSAN_OPTIONS":MSAN}
        s.timeout=20
    def close(s):
        if not os.environ.get("CMV_KEEP"): shutil.rmtree(s.root,ignore_errors=True)
    def p(s,x): return s.root+x
    def setup(s):
        for a in s.cfg.areas:
            if a.base and a.path and "%" not in a.path:
                d=a.path if a.base=="MSG" else os.path.dirname(a.path)
                os.makedirs(s.root+d,exist_ok=True)
        s.write_cfg()
    def write_cfg(s):
        with open(s.root+"cm.prefs","w",encoding="latin1") as f: f.write(s.cfg.text(s.root))
    def put(s,name,data,mtime=None,d="in"):
        p=os.path.join(s.root,d,name)
        with open(p,"wb") as f: f.write(data)
        s.seq+=1
        t=mtime if mtime is not None else T0+s.seq
        os.utime(p,(t,t))
        return p
    def run(s,tool,*args,env=None,tick=2,timeout=None,stdin=None,pre=None,wrap=()):
        s.now+=tick
        e=dict(s.env0); e["CMV_TIME"]=str(s.now)
        if env: e.update(env)
        r=Res(); cmd=list(wrap)+[os.path.join(s.bins,tool)]+[a if isinstance(a,bytes) else str(a).encode('latin1') for a in args]
        r.cmd=[tool]+[(lat(a) if isinstance(a,bytes) else str(a)).replace(s.root,"") for a in args]
        for attempt in(0,1):
            of=s.root.rstrip("/")+".out"
            with open(of,"wb") as fo:
                pr=subprocess.Popen(cmd,cwd=s.root,env=e,stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,stdout=fo,stderr=subprocess.STDOUT,start_new_session=True)
                try:
                    pr.communicate(stdin,timeout=timeout or s.timeout); r.timeout=False
                except subprocess.TimeoutExpired:
                    r.timeout=True
                    try: os.killpg(pr.pid,signal.SIGKILL)
                    except OSError: pass
                    pr.communicate()
            with open(of,"rb") as fo: r.out=fo.read(4000000)
            os.unlink(of)
            break
        r.rc=pr.returncode
        r.sig=-r.rc if r.rc<0 else 0
        t=r.out.decode("latin1")
        r.text=t
        r.san=None
        if r.rc==99 or "hard rss limit" in t or "ERROR: AddressSanitizer" in t or re.search("(ERROR|WARNING): MemorySanitizer: ",t) or "runtime error:" in t:
            t=r.text=symbolize(t); r.san=san_sig(t)
            i=t.find("ERROR: AddressSanitizer"); i=i if i>=0 else t.find(": MemorySanitizer: "); j=t.find("runtime error:")
            k=max(0,min(x for x in (i,j,len(t)) if x>=0)-300); r.text=t[k:k+3000]
        s.runs.append((r.cmd,r.rc))
        return r
    def inj(s,mode,n,err,*a,tool="crashmail",**kw):
        """run a program under the injector; r.changes: [(number,call,path)], r.failed: the changes made to fail"""
        lg=s.root.rstrip("/")+".inj"
        args=(["SETTINGS",s.root+"cm.prefs"] if tool=="crashmail" else [])+list(a)
        r=s.run(tool,*args,wrap=[os.path.join(s.bins,"inj"),lg,mode,str(n),str(err),"--"],**kw)
        r.changes=[];r.failed=[];r.killed=False;r.sources=[]
        try:
            for l in open(lg,encoding="latin1",newline="\n"):
                x=l.rstrip("\n").split(" ",2)
                if x[0]=="failed": y=x[2].split(" ",1); r.failed.append((y[0],y[1].replace(s.root,"")))
                elif x[0]=="from": r.sources.append(" ".join(x[1:]).replace(s.root,""))
                elif x[0]=="signal": r.killed=x[1]=="9"
                elif x[0].isdigit(): r.changes.append((x[1],x[2].replace(s.root,"")))
            os.unlink(lg)
        except OSError: pass
        return r
    def toss(s,*extra,**kw): return s.run("crashmail","SETTINGS",s.root+"cm.prefs","TOSS",*extra,**kw)
    def scan(s,*extra,**kw): return s.run("crashmail","SETTINGS",s.root+"cm.prefs","SCAN",*extra,**kw)
    def cm(s,*a,**kw): return s.run("crashmail","SETTINGS",s.root+"cm.prefs",*a,**kw)
    # ---------------------------------------------------------------- observations
    def area_msgs(s,a):
        """-> list of Msg in storage order"""
        if not a.base or not a.path: return []
        if a.base=="MSG":
            b=read_msgbase(s.root+a.path); return [b[k] for k in sorted(b) if k!=1 or not is_highwater(b[k])]
        if not os.path.exists(s.root+a.path+".jhr"): return []
        j=read_jam(s.root+a.path)
        return [j.msgs[k] for k in sorted(j.msgs) if not j.msgs[k].deleted]
    def jam(s,a):
        if not os.path.exists(s.root+a.path+".jhr"): return None
        return read_jam(s.root+a.path)
    def outbound(s,cfg=None,consume=False):
        return Outbound(s,cfg or s.cfg,consume)
    def log(s):
        try: return open(s.root+"cm.log","rb").read().decode("latin1")
        except OSError: return ""
def is_highwater(m): return m.num==1 and m.subj==b"HighWater mark"
def symbolize(t):
    """add function and line to frames the runtime printed as module+offset"""
    by={}
    for m in re.finditer(r"0x[0-9a-f]+  \((\S+)\+(0x[0-9a-f]+)\)",t): by.setdefault(m[1],[]).append(m[2])
    rep={}
    for f,offs in by.items():
        offs=sorted(set(offs))[:60]
        try: out=subprocess.run(["addr2line","-f","-s","-e",f]+offs,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,timeout=60).stdout.decode("latin1").split("\n")
        except Exception: continue
        for i,x in enumerate(offs):
            if 2*i+1<len(out): rep[f,x]="%s %s"%(out[2*i],out[2*i+1])
    def sub(m): return m[1]+" in "+rep[m[2],m[3]] if (m[2],m[3]) in rep else m[0]
    t=re.sub(r"(0x[0-9a-f]+)  \((\S+)\+(0x[0-9a-f]+)\)",sub,t)
    return re.sub(r" \(BuildId: \w+\)","",t)
def san_sig(t):
    """stable signature of a sanitizer report: kind + first frames in the code under test"""
    k="?"
    m=re.search(r"(?:ERROR|WARNING): (?:Address|Memory)Sanitizer: ([\w-]+)",t)
    if m: k=m[1]
    if "hard rss limit exhausted" in t: return "memory-exhausted"
    m=re.search(r"([\w./-]+\.[ch]):(\d+):\d+: runtime error: (.*)",t)
    if m: k="ub:"+re.sub(r"-?0x[0-9a-f]+|-?\d+","N",m[3])[:60]
    fr=[]
    for f in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\w+) (\S+)",t):
        if "/src/" in f[2] or f[2].startswith("crashmail/") or re.search(r"\.(c|h):\d+",f[2]) and "../" not in f[2] and "sanitizer" not in f[2] and "sysdeps" not in f[2] and "csu" not in f[2] and not f[1].startswith("__"):
            fr.append(f[1])
    return k+"@"+">".join(fr[:2])
class Outbound:
    """everything waiting in the outbound, parsed with a strict reader. problems: format violations."""
    def __init__(s,w,cfg,consume=False):
        s.problems=[]; s.pkts=[]; s.files=[]; s.busy=[]; s.left=[]
        pr=s.problems.append
        first=cfg.akas[0]
        outb=w.root+cfg.outbound
        parent=os.path.dirname(outb); leaf=os.path.basename(outb)
        doms={}
        for k in cfg.akas:
            if k.domain and k.domain.lower() not in doms: doms[k.domain.lower()]=k.addr.z
        used=set()
        dirs=[]
        for d in sorted(os.listdir(parent)):
            q=os.path.join(parent,d)
            if not os.path.isdir(q): continue
            if d==leaf: dirs.append((q,first.addr.z))
            else:
                m=re.fullmatch(re.escape(leaf)+r"\.([0-9a-f]{3,4})",d)
                if m: dirs.append((q,int(m[1],16)))
                elif d not in("in","tmp","pkt","new","ar"):
                    m=re.fullmatch(r"(.*?)(?:\.([0-9a-f]{3,4}))?",d)
                    if m[1].lower() in doms: dirs.append((q,int(m[2],16) if m[2] else doms[m[1].lower()]))
        s.pk={}
        for ent in dirs:
            q,z=ent[0],ent[1]
            dom=ent[2] if len(ent)>2 else None
            for n in sorted(os.listdir(q)):
                m=re.fullmatch(r"([0-9a-f]{4})([0-9a-f]{4})\.(\w+)",n)
                if not m: pr("foreign name in outbound: "+n); continue
                net,node=int(m[1],16),int(m[2],16)
                if m[3]=="pnt" and os.path.isdir(os.path.join(q,n)):
                    for k in sorted(os.listdir(os.path.join(q,n))):
                        mm=re.fullmatch(r"([0-9a-f]{8})\.(\w+)",k)
                        if not mm: pr("foreign name in outbound: "+n+"/"+k); continue
                        s.one(w,os.path.join(q,n,k),A(z or 0,net,node,int(mm[1],16)),mm[2],dom,cfg)
                else: s.one(w,os.path.join(q,n),A(z or 0,net,node,0),m[3],dom,cfg)
        pd=w.root+cfg.pktdir
        refd={}
        for d,fl,mode,path in s.files: refd.setdefault(path,[]).append((d,fl))
        for path,l in refd.items():
            if len(l)>1: pr("file %s listed %d times"%(os.path.basename(path),len(l)))
        for n in sorted(os.listdir(pd)):
            q=os.path.join(pd,n)
            if n.endswith((".pkttmp",".orphan")): s.left.append(n); continue
            if os.path.isfile(q) and q not in refd and not os.path.exists(q+".orphan") and not n.startswith("cmindex") and os.path.getsize(q)>0:
                if re.fullmatch(r"[0-9a-f]{8}\.(pkt|[a-z]{2}\d)",n): pr("waiting file %s is in no flow file"%n)
        for n in sorted(os.listdir(w.root+cfg.createdir)):
            s.left.append("new/"+n)
    def one(s,w,path,dest,ext,dom,cfg):
        pr=s.problems.append; rel=path[len(w.root):]
        if ext=="bsy": s.busy.append(rel); return
        if re.fullmatch("[ohdc]ut",ext):
            b=open(path,"rb").read()
            try: k=parse_pkt(b)
            except FormatError as e: pr("%s: %s"%(rel,e)); return
            k.file=rel; k.flav={"o":"Normal","h":"Hold","d":"Direct","c":"Crash"}[ext[0]]; k.where=dest; k.bundle=None; k.dom=dom
            s.pkts.append(k); s.chk(k,dest,rel,dom)
        elif re.fullmatch("[fhdc]lo",ext):
            fl={"f":"Normal","h":"Hold","d":"Direct","c":"Crash"}[ext[0]]
            b=open(path,"rb").read()
            if b and not b.endswith(b"\n"): pr("%s does not end with a newline"%rel)
            seen=set()
            for l in b.split(b"\n"):
                l=lat(l)
                if l.endswith("\r"):
                    l=l[:-1]
                    if "FLOWCRLF" not in cfg.switches: pr("%s: CR in flow file"%rel)
                elif l and "FLOWCRLF" in cfg.switches: pr("%s: no CR in flow file"%rel)
                if not l: continue
                if l[:1] in "~": continue
                mode=l[0] if l[0] in "#^-" else ""
                f=l[len(mode):]
                if cfg.pad is not None and f.startswith(w.root): f=os.path.normpath(f)
                if f.lower() in seen: pr("%s lists %s twice"%(rel,os.path.basename(f)))
                seen.add(f.lower())
                s.files.append((dest,fl,mode,f))
                if not os.path.exists(f): pr("%s lists missing file %s"%(rel,f.replace(w.root,""))); continue
                n=os.path.basename(f)
                if not f.startswith(w.root+cfg.pktdir+"/"): continue
                if re.fullmatch(r"[0-9a-f]{8}\.pkt",n):
                    try: k=parse_pkt(open(f,"rb").read())
                    except FormatError as e: pr("%s: %s"%(n,e)); continue
                    k.file=n; k.flav=fl; k.where=dest; k.bundle=n; k.dom=dom; k.mode=mode
                    s.pkts.append(k); s.chk(k,dest,n,dom)
                    if mode!="^": pr("%s: sent file %s not marked for deletion"%(rel,n))
                elif re.fullmatch(r"[0-9a-f]{8}\.(mo|tu|we|th|fr|sa|su)\d",n):
                    try: mem=arc_unpack(open(f,"rb").read())
                    except FormatError as e: pr("bundle %s: %s"%(n,e)); continue
                    if mode!="^": pr("%s: bundle %s not marked for deletion"%(rel,n))
                    names=[x[0].lower() for x in mem]
                    if len(set(names))!=len(names): pr("bundle %s has two members of one name"%n)
                    for mn,d in mem:
                        if not re.fullmatch(r"[0-9a-f]{8}\.pkt",mn): pr("bundle %s: member %s"%(n,mn))
                        try: k=parse_pkt(d)
                        except FormatError as e: pr("bundle %s member %s: %s"%(n,mn,e)); continue
                        k.file=n+":"+mn; k.flav=fl; k.where=dest; k.bundle=n; k.dom=dom; k.size=len(d); k.mode=mode
                        s.pkts.append(k); s.chk(k,dest,k.file,dom)
        else: pr("foreign file in outbound: "+rel)
    def chk(s,k,dest,rel,dom):
        pr=s.problems.append
        d=k.dest
        if dom is None and d!=dest or dom is not None and tuple(d[1:])!=tuple(dest[1:]): pr("%s is for %s but filed under %s"%(rel,d,dest))
        if k.qz!=(k.orig.z,k.dest.z): pr("%s: zone fields disagree %s"%(rel,k.qz))
        if k.cw!=1 or k.cwv!=0x0100: pr("%s: capability word %x/%x"%(rel,k.cw,k.cwv))
        if k.baud!=0: pr("%s: baud %d"%(rel,k.baud))
        if not k.msgs: pr("%s: packet without messages"%rel)
VERSION_RE=re.compile(rb"CrashMail II/[^\r]*")
GEN_RE=re.compile(rb"Generated by CrashMail[^\r]*")
def norm(t): return GEN_RE.sub(b"Generated by CrashMail",VERSION_RE.sub(b"CrashMail II",t)).replace(b"%%RESUME",b"%RESUME")
