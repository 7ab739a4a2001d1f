"""Common driver of all checks: rebuilds the programs, runs the cases of one check in unprivileged
workers inside a scratch directory, collects what the monitors observed, writes evidence, reports."""
import os,sys,json,time,hashlib,pickle,random,resource,shutil,signal,struct,tempfile,traceback,importlib,argparse
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,VERIF+"/lib"); sys.path.insert(0,VERIF+"/checks")
import build,fido,cfg,model,world
NOBODY=65534
class Out:
    """what one case observed"""
    def __init__(s): s.viol=[]; s.obs={}; s.keys=set(); s.sample=None; s.evals=0
    def bad(s,sig,msg): s.viol.append((str(sig),str(msg)[:3000]))
    def count(s,k,n=1): s.obs[k]=s.obs.get(k,0)+n
    def key(s,*k): s.keys.add(hashlib.sha1(repr(k).encode()).hexdigest()[:16])
class Ctx: pass
def scratch():
    b="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm",os.W_OK) else "/tmp"
    d=tempfile.mkdtemp(prefix="cmv.",dir=b); os.chmod(d,0o755); return d
def drop(d,lim=False):
    if lim: resource.setrlimit(resource.RLIMIT_AS,(3<<30,3<<30))
    resource.setrlimit(resource.RLIMIT_CORE,(0,0))
    resource.setrlimit(resource.RLIMIT_FSIZE,(1<<26,1<<26))
    if os.geteuid()==0:
        os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
    os.umask(0o022)
def one(mod,case,ctx):
    o=Out(); cwd=os.getcwd()
    try: mod.run_case(case,ctx,o)
    except fido.FormatError as e: o.bad("format:"+str(e)[:60],"unreadable output: %s"%e)
    except Exception as e:
        tb=traceback.format_exc(); fr=traceback.extract_tb(e.__traceback__)[-1]
        o.bad("oracle:%s@%s"%(type(e).__name__,fr.name),tb)
    o.sample=o.sample if o.sample is not None else None
    return o
HANGS=8; BADS=150
def run_pool(mod,cases,base,bins,timeout,nproc=None,limit=None,hard=None):
    """limit: seconds after which no new case is begun; hard: seconds after which the workers are ended.
    Many hanging or violating cases end the run early: what there is to say is known then.
    returns results, cases begun and never finished, whether a worker failed"""
    import mmap
    st=mmap.mmap(-1,64+len(cases)+1); t0=time.time(); kn={f["sig"] for f in known().get("findings",[]) if f["property"]==mod.PROP}
    nproc=nproc or min(int(os.environ.get("CMV_JOBS","8")),len(cases)) or 1
    rfd,wfd=os.pipe()
    import fcntl
    try: fcntl.fcntl(wfd,1031,1<<20)
    except OSError: pass
    data=b"".join(struct.pack("<I",i) for i in range(len(cases)))
    pids=[];files=[]
    for k in range(nproc):
        d=os.path.join(base,"%d"%k); os.makedirs(d,exist_ok=True)
        if os.geteuid()==0: os.chown(d,NOBODY,NOBODY)
        rf=os.path.join(d,"result"); files.append(rf)
        sys.stdout.flush()
        pid=os.fork()
        if pid==0:
            try:
                os.close(wfd)
                drop(d,not any('san' in b for b in bins) and not os.environ.get('CMV_KIND')); signal.signal(signal.SIGINT,signal.SIG_DFL)
                c=Ctx(); c.base=d; c.bins=bins; c.timeout=timeout
                with open(rf,"wb") as f:
                    while True:
                        b=os.read(rfd,4)
                        if len(b)<4: break
                        i=struct.unpack("<I",b)[0]
                        t=time.time()
                        if limit and (t-t0>limit or sum(st[:16])>=HANGS or sum(st[16:32])>=BADS): break
                        st[64+i]=1
                        o=one(mod,cases[i],c)
                        o.t=time.time()-t
                        pickle.dump((i,o),f); f.flush(); st[64+i]=2
                        h=[sg for sg,_ in o.viol if sg not in kn]
                        if any(sg.startswith("hang") for sg in h): st[k]=min(255,st[k]+1)
                        elif h: st[16+k]=min(255,st[16+k]+1)
                        for x in os.listdir(d):
                            if x!="result" and not os.environ.get("CMV_KEEP"):
                                q=os.path.join(d,x)
                                shutil.rmtree(q,ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        pids.append(pid)
    os.close(rfd)
    off=0
    while off<len(data):
        try: off+=os.write(wfd,data[off:off+4096])
        except BrokenPipeError: break
    os.close(wfd)
    bad=False; live=set(pids); end=t0+hard if hard else None
    while live:
        for p in list(live):
            q,x=os.waitpid(p,os.WNOHANG)
            if q:
                live.discard(p)
                if x: bad=True
        if end and live and time.time()>end:
            for p in live: os.kill(p,signal.SIGKILL)
            end=None
        if live: time.sleep(.02)
    res={}
    for rf in files:
        try:
            with open(rf,"rb") as f:
                while True:
                    try: i,o=pickle.load(f); res[i]=o
                    except EOFError: break
        except OSError: pass
    return res,[i for i in range(len(cases)) if st[64+i]==1 and i not in res],bad
def known():
    p=os.path.join(VERIF,"known-findings.json")
    try: return json.load(open(p))
    except OSError: return {"findings":[],"fixed":[]}
def main(argv=None):
    ap=argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier",default=os.environ.get("VERIF_TIER","quick"))
    ap.add_argument("--seed",type=int,default=int(os.environ.get("VERIF_SEED","1") or 1)); ap.add_argument("--replay"); ap.add_argument("-v",action="store_true")
    ap.add_argument("-n",type=int); ap.add_argument("--keep",action="store_true")
    a=ap.parse_args(argv)
    if a.keep: os.environ['CMV_KEEP']='1'
    if a.tier not in("quick","thorough"): a.tier="quick"
    t0=time.time()
    mod=importlib.import_module(a.prop.lower())
    force=os.environ.get("CMV_KIND")   # for experiments: every run of the check with another build
    try: built={k:build.get(force or k) for k in getattr(mod,"KINDS",("plain",))}
    except build.BuildError as e:
        print("build of /repo failed:\n"+str(e)); return 2
    tb=time.time()-t0
    base=scratch()
    try:
        bins={}
        for k,d in built.items():
            bins[k]=os.path.join(base,"b"+k[0]); shutil.copytree(d,bins[k])
            os.chmod(bins[k],0o755)
            for f in os.listdir(bins[k]): os.chmod(os.path.join(bins[k],f),0o755)
        if a.replay:
            r=json.load(open(a.replay)); cases=[r["case"]]
        else:
            cases=mod.cases(a.tier,a.seed)
            if a.n: cases=cases[:a.n]
        # no new case is begun after the limit: a run always ends with an answer
        quick=a.tier=="quick"
        res,miss,broke=run_pool(mod,cases,base,bins,20,limit=480 if quick else 1<<30,hard=600 if quick else None)
        # a hang is only believed if it shows again with few others and with more time
        hung=lambda o: any(sg.startswith("hang") for sg,_ in o.viol)
        again=[i for i,o in res.items() if hung(o)]
        if again or miss:
            todo=sorted(set(again[:4]+miss[:4]))
            r2,miss2,_=run_pool(mod,[cases[i] for i in todo],base,bins,70,4,hard=220 if quick else None)
            sure=bool(miss2)
            for j,i in enumerate(todo):
                if j in r2: res[i]=r2[j]; sure=sure or hung(r2[j])
                elif j in miss2: res[i]=Out(); res[i].t=0; res[i].bad("hang:case","the case did not end, or its worker died, twice")
            if not sure:
                for i in again[4:]: res[i].viol=[v for v in res[i].viol if not v[0].startswith("hang")]
    finally:
        if not a.keep: shutil.rmtree(base,ignore_errors=True)
        else: print("kept",base)
    kf=[f for f in known().get("findings",[]) if f["property"]==mod.PROP]
    kn={f["sig"]:f for f in kf}
    obs={};keys=set();viol={};samples=[];hits=set();ev=0
    for i in sorted(res):
        o=res[i]
        for k,v in o.obs.items(): obs[k]=obs.get(k,0)+v
        keys|=o.keys; ev+=o.evals or 1
        if o.sample is not None and len(samples)<4: samples.append(o.sample)
        for sg,m in o.viol:
            if sg in kn: hits.add(sg); continue
            viol.setdefault(sg,(i,m))
    wall=time.time()-t0
    if not a.replay:
        e={"property":mod.PROP,"tier":a.tier,"seed":a.seed,"level":mod.LEVEL,
           "coverage":{"evaluations":ev,"distinct_nontrivial":len(keys),"rule":mod.RULE,"samples":samples or [{"observed":obs}],"observed":obs,"cases":len(cases)},
           "wall_s":round(wall,2),"violations":[{"signature":s,"what":m[:400]} for s,(i,m) in list(viol.items())[:20]],
           "assumptions":getattr(mod,"ASSUME",[])}
        os.makedirs(VERIF+"/evidence",exist_ok=True)
        tmp=VERIF+"/evidence/.%s.%d"%(mod.PROP,os.getpid())
        json.dump(e,open(tmp,"w"),indent=1,default=str); os.replace(tmp,VERIF+"/evidence/%s.json"%mod.PROP)
    for f in kf:
        print("KNOWN-FINDING: property=%s %s%s"%(mod.PROP,f["what"],"" if f["sig"] in hits else " (not exercised in this run)"))
    if a.v:
        print("observed:",json.dumps(obs,sort_keys=True)); print("slowest:",sorted(((round(o.t,2),i) for i,o in res.items()),reverse=True)[:5])
    print("%s %s: %d cases, %d distinct, %.1fs (build %.1fs)%s"%(mod.PROP,a.tier,len(res),len(keys),wall,tb," WORKER FAILURE" if broke else ""))
    if viol:
        os.makedirs(VERIF+"/replay",exist_ok=True)
        for n,(sg,(i,m)) in enumerate(sorted(viol.items())):
            if n>=8: print("... %d more kinds"%(len(viol)-n)); break
            h=hashlib.sha1(sg.encode()).hexdigest()[:10]
            p=a.replay or VERIF+"/replay/%s-%s.json"%(mod.PROP,h)
            if not a.replay: json.dump({"property":mod.PROP,"signature":sg,"what":m,"case":cases[i]},open(p,"w"),indent=1,default=str)
            print("VIOLATION property=%s replay=%s"%(mod.PROP,p)); print("   %s: %s"%(sg,m.replace("\n","\n   ")[:1500 if a.v else 600]))
        return 1
    return 0
