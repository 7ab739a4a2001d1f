"""Crash points and injected faults: a run is repeated from one saved state with a kill or a failing system call at a chosen
change of the file system; what is delivered in the end is compared with the run that was left alone."""
import os,re,shutil,random
from tossck import *
TOK=re.compile(rb"<<t\d+>>")
def build_state(r,g,ctx,scan):
    """a system with history: stored mail, waiting outbound mail of all kinds, and new mail to process"""
    c=g.cfg(nnodes=r.randint(2,4),nareas=r.randint(1,3),switches=[x for x in("CHECKSEENBY","IMPORTSEENBY","MSG_HIGHWATER","JAM_HIGHWATER","JAM_LINK","MSG_WRITEBACK","PATH3D","ALLOWKILLSENT","FLOWCRLF","WEEKDAYNAMING") if r.random()<.2],packer=r.choice([0,.5,1]))
    for k in c.akas: k.domain=""
    c.dupemode=r.choice(["KILL","BAD","IGNORE"]); c.loopmode="IGNORE"
    if r.random()<.3: c.maxpkt=1
    c.fileattach=["*:*/*.*"]
    if r.random()<.2: c.maxbundle=1
    t=Toss(ctx,c); t.files=[]; w=t.w
    es=[a for a in c.areas if a.kind=="ECHO" and a.exports]; loc=[a for a in c.areas if a.base and a.kind in("ECHO","NETMAIL")]
    busy=[]
    for k in range(r.choice([0,1,1,2])):
        if r.random()<.5:
            for n in r.sample(c.nodes,1):
                b=base_of(w,c,n.addr); os.makedirs(os.path.dirname(b),exist_ok=True); open(b+".bsy","w").close(); busy.append(b)
        t.files=[]; mail(r,g,t,c,es,r.choice([1,3,6])); w.cm("TOSS")
        if loc and r.random()<.5: locals_(r,g,t,c,loc,2); w.cm("SCAN")
        for b in busy:
            if os.path.exists(b+".bsy"): os.unlink(b+".bsy")
    t.files=[]
    if scan: locals_(r,g,t,c,loc,r.choice([1,2,5]))
    else: mail(r,g,t,c,es,r.choice([1,2,4,8]))
    return t
def base_of(w,c,a):
    d=w.root+c.outbound+("" if a.z==c.akas[0].addr.z else ".%03x"%a.z)
    b=d+"/%04x%04x"%(a.n,a.f)
    if a.p: b+=".pnt/%08x"%a.p
    return b
def mail(r,g,t,c,es,k):
    ms=[]; fs=[]
    for _ in range(k):
        n=r.choice(c.nodes).addr; y=r.random()
        if r.random()<.12:
            x="att%d%s"%(g.tok,r.choice([".zip","",".JPG"])); fs.append((x,by(x)*r.choice([1,1,9000]))); m,_=g.net(c,n,r.choice(c.nodes).addr,subj=by(x),attr=ATTACH|r.choice([0,CRASH,HOLD]))
        elif es and y<.65:
            a=r.choice(es); n=r.choice(a.exports)[1] if r.random()<.9 else n; m,_=g.echo(c,n,by(a.tag),big=r.random()<.1)
        elif y<.9: m,_=g.net(c,n,r.choice(c.nodes).addr if r.random()<.6 else g.addr(),attr=r.choice([0,PVT,CRASH,HOLD]))
        else: m,_=g.net(c,n,r.choice(c.akas).addr,attr=0)
        ms.append((n,m))
    f=[]; deliver(g,c,f,ms,bundle=r.choice([0,.4,.8])); t.inbound(fs+f)
def locals_(r,g,t,c,loc,k):
    for _ in range(k):
        a=r.choice(loc)
        if a.kind=="NETMAIL" and r.random()<.2:
            x=t.w.root+"ar/la%d.zip"%g.tok; open(x,"wb").write(by("la%d"%g.tok)*r.choice([1,9000]))
            t.local(g,a,dest=r.choice(c.nodes).addr,attr=LOCAL|ATTACH|r.choice([0,CRASH,HOLD]),orig=r.choice(c.akas).addr,subj=by(x)); continue
        t.local(g,a,dest=r.choice(c.nodes).addr if r.random()<.8 else g.addr(),attr=LOCAL|r.choice([0,0,CRASH,HOLD,KILLSENT]))
class State:
    """every message by its token: where it is stored, for whom it waits"""
    def __init__(s,w,c):
        s.area={}; s.out={}; s.inb={}; s.bad=[]
        for a in c.areas:
            if not a.base: continue
            try: ms=w.area_msgs(a)
            except(FormatError,OSError) as e: s.bad.append("message base %s: %s"%(a.tag,e)); continue
            for m in ms:
                for tk in TOK.findall(m.text): s.area.setdefault((a.tag,tk),[]).append(m)
        ob=w.outbound(c); s.ob=ob
        for k in ob.pkts:
            for m in k.msgs:
                for tk in TOK.findall(m.text): s.out.setdefault((str(k.dest),tk),[]).append(m)
        s.att={}
        for dest,fl,mode,path in ob.files:
            if not re.fullmatch(r"[0-9a-f]{8}\.(pkt|(mo|tu|we|th|fr|sa|su)\d)",os.path.basename(path)) and os.path.isfile(path): s.att.setdefault((str(dest),os.path.basename(path)),[]).append(open(path,"rb").read())
        d=w.root+c.inbound
        for f in sorted(os.listdir(d)): s.inb[f]=open(os.path.join(d,f),"rb").read()
    def intok(s):
        k=set()
        for b in s.inb.values(): k|=set(TOK.findall(b))
        return k
def ident(m):
    """what of a stored or waiting message must not change"""
    return (m.frm,m.to,m.subj,m.text)
def save(w,d):
    shutil.rmtree(d,ignore_errors=True); shutil.copytree(w.root,d)
    for f in os.listdir(d+"/in"): shutil.copystat(w.root+"in/"+f,d+"/in/"+f)
def restore(w,d):
    for x in os.listdir(w.root):
        q=w.root+x
        shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
    shutil.copytree(d,w.root,dirs_exist_ok=True)
def unlock(w):
    for d,_,fs in os.walk(w.root):
        for f in fs:
            if f.endswith(".bsy"): os.unlink(os.path.join(d,f))
    return w.cm("UNLOCK")
def judge(ref,pre,got,o,what,keepin=False):
    """ref: state after the undisturbed run, pre: before it, got: after the disturbed run and its repetition"""
    for b in got.bad: o.bad("base","%s: %s"%(what,b))
    intok=got.intok() if keepin else set()
    for k in ref.area:
        if k in pre.area: continue
        if k not in got.area and k[1] not in intok: o.bad("lost:area","%s: message %s never reached area %s"%(what,lat(k[1]),k[0])); return
    for k in ref.out:
        if k in pre.out: continue
        if k not in got.out and k[1] not in intok: o.bad("lost:out","%s: message %s is not in the outbound for %s (files there: %s)"%(what,lat(k[1]),k[0],[x.file for x in got.ob.pkts])); return
    for k in pre.area:
        if k not in ref.area: continue     # deleted after sending
        if k not in got.area: o.bad("old:area","%s: earlier message %s of area %s is gone"%(what,lat(k[1]),k[0])); return
        x={cont(m) for m in pre.area[k]}|{cont(m) for m in ref.area[k]}
        if not x&{cont(m) for m in got.area[k]}: o.bad("old:changed","%s: earlier message %s of area %s was damaged"%(what,lat(k[1]),k[0])); return
    for k in pre.out:
        if k not in got.out: o.bad("old:out","%s: message %s that was waiting for %s is gone"%(what,lat(k[1]),k[0])); return
        if not {ident(m) for m in pre.out[k]}<={ident(m) for m in got.out[k]}: o.bad("old:outchanged","%s: message %s that was waiting for %s was damaged"%(what,lat(k[1]),k[0])); return
    for k in ref.att:
        if keepin and got.inb.get(k[1]) in ref.att[k]: continue
        if not set(ref.att[k])&set(got.att.get(k,[])): o.bad("lost:attached","%s: the attached file %s is not waiting for %s"%(what,k[1],k[0])); return
        o.count("attached files judged")
    # new content must be what the undisturbed run delivered
    for k in ref.out:
        if k in got.out and not {cont(m) for m in ref.out[k]}&{cont(m) for m in got.out[k]}: o.bad("content:out","%s: message %s for %s has other content than in an undisturbed run"%(what,lat(k[1]),k[0])); return
    for k in ref.area:
        if k in got.area and k not in pre.area and not {cont(m) for m in ref.area[k]}&{cont(m) for m in got.area[k]}: o.bad("content:area","%s: message %s in %s has other content than in an undisturbed run"%(what,lat(k[1]),k[0])); return
    if not keepin:
        sent={os.path.basename(x[3]) for x in got.ob.files}     # an attached file may be sent from where it is
        for f in sorted(set(got.inb)-set(ref.inb)-sent): o.bad("inbound:left","%s: %s is still in the inbound"%(what,f)); return
VIA=re.compile(rb"\x01Via [^\r]*\r?")
def cont(m): return (m.frm,m.to,m.subj,VIA.sub(b"",m.text))
def probe(t,g,c,o,what):
    """whatever happened before, a later run works: a new message is processed"""
    f=[]; n=g.r.choice(c.nodes).addr; m,_=g.net(c,n,g.r.choice(c.akas).addr,attr=0); deliver(g,c,f,[(n,m)],bundle=0)
    t.inbound(f); t.w.cm("TOSS"); s=State(t.w,c); tk=TOK.findall(m if isinstance(m,bytes) else m.text)[:1]
    o.count("later runs probed")
    if not s.inb.keys().isdisjoint({x[0] for x in f}): o.bad("stuck","%s: a later toss leaves new mail in the inbound: %s"%(what,t.w.log()[-300:]))
    elif tk and not any(k[1]==tk[0] for k in list(s.area)+list(s.out)): o.bad("stuck:lost","%s: a message tossed later is nowhere: %s"%(what,t.w.log()[-300:]))
