"""One toss (or several) compared with the model; shared by the behavioural checks."""
import os,random,re,hashlib
from fido import *
from world import World,T0
from gen import G
import model,compare
def sorted_in(files): return files
class Toss:
    """driver keeping model state over several runs"""
    def __init__(s,ctx,cfg,nl=None,simcls=None,kind="plain"):
        s.w=World(ctx.base,kind,ctx.bins,cfg); s.w.timeout=ctx.timeout
        s.w.setup(); s.cfg=cfg
        s.sim=(simcls or model.Sim)(cfg,nl=nl)
        s.base={}
    def inbound(s,files):
        """files: [(name,bytes)] in arrival order; put in the inbound with increasing dates"""
        for n,d in files: s.w.put(n,d)
        s.files=getattr(s,"files",[])+list(files)
    def run(s,out,nosec=False,args=(),mode="dir"):
        """toss, compare everything. out: list receiving (cat,sig,msg)"""
        sim=s.sim; w=s.w
        sim.nosec=nosec
        s.snap()
        r=w.toss(*(list(args)+(["NOSECURITY"] if nosec else [])))
        sim.now=w.now
        exp_in={}
        pk=[f for f in s.files if f[0].lower().endswith(".pkt") and len(f[0])==12]
        ar=[f for f in s.files if is_arc(f[0])]
        rest=[f for f in s.files if f not in pk and f not in ar]
        for n,d in rest: exp_in[n]=d
        def setbad(n,d):
            k=n+".bad"; i=0
            while k in exp_in: i+=1; k=n+".bad,%d"%i
            exp_in[k]=d
        s.reasons=[]
        for n,d in pk:
            x=sim.toss_pkt(d)
            if x is not None: setbad(n,d); s.reasons.append(x)
        for n,d in ar:
            if not d: continue
            try: mem=arc_unpack(d)
            except Exception: setbad(n,d); s.reasons.append("packer"); continue
            for mn,md in sorted(mem,key=lambda q:q[0].lower()):
                if mn.lower().endswith(".pkt") and len(mn)==12:
                    x=sim.toss_pkt(md)
                    if x is not None: setbad(mn,md); s.reasons.append(x)
        s.files=list(exp_in.items())
        s.r=r; s.exp_in=exp_in
        if not runstate(r,out): return r
        if r.rc!=0: out.append(("run","run:rc%d"%r.rc,"toss returned %d: %s"%(r.rc,r.text[-400:])))
        if s.before: s.before(out)
        s.compare(out,exp_in)
        return r
    before=None
    def snap(s):
        s.old={a.tag:dict((m.num,m) for m in s.w.area_msgs(a)) for a in s.cfg.areas if a.base and not model.unexpanded(a)}
        s.imp0=len(s.sim.imports); s.sent=set(); s.gone=set()
    def local(s,g,area,**kw):
        """a message written by an editor in a local area. returns (number, token)"""
        return write_local(g,s.w,area,s.cfg,**kw)
    def highwater(s,a):
        if a.base=="MSG" and "MSG_HIGHWATER" in s.cfg.switches or a.base=="JAM" and "JAM_HIGHWATER" in s.cfg.switches:
            return s.hw.get(a.tag,0)
        return 0
    hw=None
    def scan(s,out,areas=None,cmd=None):
        """SCAN (all), SCANAREA x, SCANLIST ..."""
        sim=s.sim; w=s.w; sim.nosec=False
        if s.hw is None: s.hw={}
        s.snap()
        r=w.cm(*(cmd or ["SCAN"]))
        sim.now=w.now; s.r=r
        s.exported=0
        for a in (list(s.cfg.areas) if areas is None else [s.cfg.area(x) for x in areas]):
            if a.kind not in("ECHO","NETMAIL") or not a.base or a.unconf or model.unexpanded(a): continue
            if a.kind=="NETMAIL" and sim.sw("NOEXPORTNETMAIL") and not (cmd and cmd[0]=="SCANAREA"): continue
            hw=s.highwater(a)
            recs=[(n,m) for n,m in sorted(s.old[a.tag].items()) if n>hw and (a.base!="MSG" or n>=2)]
            done=sim.scan(a,recs); s.exported+=len(done)
            for n in done:
                rec=s.old[a.tag][n]
                kill=rec.attr&(KILLSENT if a.base=="MSG" else JKILL)
                if kill and a.kind=="NETMAIL" and sim.sw("ALLOWKILLSENT"): s.gone.add((a.tag,n))
                else: s.sent.add((a.tag,n))
            if a.base=="MSG":
                k=[n for n in done if (a.tag,n) in s.sent]
                if k: s.hw[a.tag]=max(k)
            elif s.old[a.tag] or True:
                j=w.jam(a)
                if j: s.hw[a.tag]=max(s.hw.get(a.tag,0),max([0]+[n for n in s.old[a.tag]]))
        if not runstate(r,out): return r
        if r.rc!=0: out.append(("run","run:rc%d"%r.rc,"%s returned %d: %s"%(r.cmd,r.rc,r.text[-400:])))
        s.compare(out)
        return r
    def rescan(s,out,area,node,mx=0,cmd=None):
        """RESCAN area RESCANNODE node [RESCANMAX n]"""
        s.snap(); a=area
        ms=s.w.area_msgs(a)
        if a.base=="JAM":
            j=s.w.jam(a); a.hi=(j.base+len(j.dx)//8-1) if j else 0
            ms=[m for m in ms if not m.deleted]
        else:
            a.hi=max([0]+[m.num for m in ms]); ms=[m for m in ms if m.num>=2]
        r=s.w.cm(*(cmd or ["RESCAN",a.tag,"RESCANNODE",str(node.addr)]+(["RESCANMAX",mx] if mx else [])))
        s.sim.now=s.w.now; s.r=r
        s.exported=s.sim.rescan(a,[(m.num,m) for m in ms],node,mx)
        if not runstate(r,out): return r
        if r.rc!=0: out.append(("run","run:rc%d"%r.rc,"%s returned %d: %s"%(r.cmd,r.rc,r.text[-400:])))
        s.compare(out)
        return r
    def compare(s,out,exp_in=None):
        w,sim=s.w,s.sim
        if exp_in is not None:
            got=read_tree(w.root+sim.cfg.inbound)
            for n in sorted(set(got)|set(exp_in)):
                if n not in got: out.append(("inbound","inbound:missing","inbound file %s disappeared"%n))
                elif n not in exp_in: out.append(("inbound","inbound:left","inbound file %s left behind"%n))
                elif got[n]!=exp_in[n]: out.append(("inbound","inbound:changed","inbound file %s changed"%n))
            t=[n for n in os.listdir(w.root+sim.cfg.tempdir)]
            if t: out.append(("inbound","inbound:temp","files left in temp directory: %s"%t))
        s.ob=w.outbound(sim.cfg)
        if s.ob.busy: out.append(("pkt","pkt:busy","busy files left: %s"%s.ob.busy))
        if s.ob.left: out.append(("pkt","pkt:left","unsent files left: %s"%s.ob.left))
        compare.cmp_out(sim,s.ob,out)
        compare.cmp_stored(sim,w,s.old,out,imp0=s.imp0)
        compare.cmp_old(sim,w,s.old,out,s.sent,s.gone)
    def close(s): s.w.close()
def write_local(g,w,a,c,attr=None,to=None,dest=None,orig=None,text=None,tok=None,num=None,deleted=False,subj=None):
    r=g.r; tok=tok or g.token(); net=a.kind=="NETMAIL"
    o=orig or (a.aka if r.random()<.8 else r.choice(c.akas).addr); d=dest or (g.addr() if net else A(0,0,0,0))
    at=(g.attr()&~(SENT|LOCAL|RREQ|AUDIT|ATTACH|FREQ)|LOCAL) if attr is None else attr
    fr,to,su=g.name(),to if to is not None else g.name(),subj if subj is not None else g.subj()
    mid=g.msgid(o)
    body=g.body(tok,crlf=False) if text is None else text
    if not net and r.random()<.8: body+=b" * Origin: a bbs ("+by(o.s3())+b")\r"
    if r.random()<.1: body=body.rstrip(b"\r\n")
    p=w.root+a.path
    if a.base=="MSG":
        k=g.kludges(mid,g.msgid() if r.random()<.3 else None)
        if net and (o.z!=d.z or d.z!=a.aka.z or r.random()<.4): k=by("\x01INTL %d:%d/%d %d:%d/%d\r"%(d[:3]+o[:3]))+k
        if net and o.p: k+=by("\x01FMPT %d\r"%o.p)
        if net and d.p: k+=by("\x01TOPT %d\r"%d.p)
        os.makedirs(p,exist_ok=True)
        n=num or max([1]+[int(x[:-4]) for x in os.listdir(p) if re.fullmatch(r"\d{1,6}\.msg",x)])+1
        write_msgfile(p+"/%d.msg"%n,fr,to,su,g.date(),o,d,at,k+body,zones=r.random()<.5)
        return n,tok
    if not os.path.exists(p+".jhr"): jam_new(p,r.choice([1,1,1,17]))
    ja=0
    for f,j in model.JFLAG:
        if at&f: ja|=j
    for j in(JDIR,JIMM,JCONF):
        if r.random()<.06: ja|=j
    ex=[]
    if r.random()<.2: ex.append((2000,b"CHRS: LATIN-1 2"))
    if r.random()<.1: ex.append((2003,r.choice([b"XYZ",b"FOO BAR"])))
    if r.random()<.1: ex.append((2000,b"XLONG "+b"q"*r.choice([80,99,100,150])))
    if r.random()<.1: ex.append((2004,b"0100"))
    n=jam_add(p,fr,to,su,body,ja|(JTNET if net else JTECHO),written=1700000000+r.randint(0,10**7),oaddr=o.s3() if net or r.random()<.7 else None,
       daddr=d.s3() if net else None,msgid=mid,reply=g.msgid() if r.random()<.3 else None,extra=ex,deleted=deleted,pid=b"Ed 1.0" if r.random()<.2 else None)
    return n,tok
def runstate(r,out):
    if r.timeout: out.append(("run","hang","%s did not end: %s"%(r.cmd,r.text[-300:]))); return False
    if r.san: out.append(("run","san:"+r.san,"%s: %s"%(r.cmd,r.text[:2500]))); return False
    if r.sig: out.append(("run","signal:%d"%r.sig,"%s killed by signal %d: %s"%(r.cmd,r.sig,r.text[-300:]))); return False
    return True
ARC=re.compile(r"[0-9a-zA-Z]{8}\.(mo|tu|we|th|fr|sa|su).",re.I)
def is_arc(n): return len(n)==12 and ARC.fullmatch(n) is not None
def select(diffs,cats,o,prefix=""):
    for c,sg,m in diffs:
        if c=="run" or any(c==x or c.startswith(x+":") or x=="*" for x in cats): o.bad(prefix+sg,m)
def deliver(g,c,files,msgs,pktkind=None,bundle=None):
    """msgs: list of (frm node, message bytes, pw) grouped in packets/bundles. appends to files"""
    r=g.r
    pkts=[]
    i=0
    while i<len(msgs):
        frm=msgs[i][0]; k=[msgs[i]]; i+=1
        while i<len(msgs) and msgs[i][0]==frm and r.random()<.8: k.append(msgs[i]); i+=1
        n=next((x for x in c.nodes if x.addr==frm),None)
        pkts.append((g.pktname(),g.pkt(frm,r.choice(c.akas).addr,[m[1] for m in k],n.pw if n else b"",pktkind)))
    i=0
    while i<len(pkts):
        if r.random()<(.3 if bundle is None else bundle):
            k=r.randint(1,3); mem=pkts[i:i+k]; i+=k
            mem=sorted(mem,key=lambda q:q[0])
            files.append((g.arcname(),arc_pack(mem)))
        else: files.append(pkts[i]); i+=1

class Attach:
    """expected flow entries and waiting copies of attached files; local: files of this system {path: content}"""
    def __init__(s,t): s.t=t; s.fl=[]; s.pk={}; s.local={}; s.n=0; s.mode="t"; t.before=s.before
    def start(s,mode): s.mode=mode; s.n=len(s.t.sim.flows)
    @staticmethod
    def base(x): return x.replace("\\","/").split("/")[-1]
    def before(s,out):
        t=s.t; c=t.cfg; root=t.w.root
        have=dict(t.exp_in) if s.mode=="t" else {}
        for x,d4,typ,exp in t.sim.flows[s.n:]:
            b=s.base(x); tgt=root+c.pktdir+"/"+b
            if exp:
                if x in s.local and not b in s.pk: s.pk[b]=s.local[x]; s.fl.append((d4,typ,"^",tgt,True))
                else: s.fl.append((d4,typ,"",x,x in s.local))
            elif b in have and b not in s.pk: s.pk[b]=have.pop(b); del t.exp_in[b]; s.fl.append((d4,typ,"^",tgt,True)); t.files=[f for f in t.files if f[0]!=b]
            else: s.fl.append((d4,typ,"^",root+c.inbound+"/"+b,b in have))
    def known(s,dd):
        """drop the remarks about entries whose file never existed"""
        root=s.t.w.root
        return [x for x in dd if not ("lists missing file" in x[2] and any(not e and ("missing file "+p.replace(root,"")) in x[2] for _,_,_,p,e in s.fl))]
    def check(s,d,skip=()):
        root=s.t.w.root; c=s.t.cfg
        got=sorted((str(a),f,m,p) for a,f,m,p in s.t.ob.files if p not in skip and not re.fullmatch(r"[0-9a-f]{8}\.(pkt|(mo|tu|we|th|fr|sa|su)\d)",os.path.basename(p)))
        want=sorted((str(a),f,m,p) for a,f,m,p,_ in s.fl)
        if got!=want:
            x=[y for y in want if y not in got]; y=[z for z in got if z not in want]
            d.append(("attach","attach:flow","flow files: missing %s unexpected %s"%(str(x[:3]).replace(root,""),str(y[:3]).replace(root,""))))
        for b,data in s.pk.items():
            p=root+c.pktdir+"/"+b
            if not os.path.isfile(p) or open(p,"rb").read()!=data: d.append(("attach","attach:file","attached file %s is not waiting with its content"%b))
        for p,data in s.local.items():
            if not os.path.isfile(p) or open(p,"rb").read()!=data: d.append(("attach","attach:source","local file %s was changed"%p))
