"""C19: maintenance deletes only expired messages and keeps the rest intact."""
import random
from tossck import *
from cfg import Area
from fido import *
PROP="C19"; LEVEL="exploration"
KINDS=("plain","asan")
RULE="a case is a set of random bases (numbers, gaps, ages, links, marks) and a history of maintenance runs mixed with new mail and scans; after every run each base is compared message by message with what the limits say; distinct = distinct (base kind, limits, switches, messages kept and deleted, mark position) combinations"
ASSUME=["reading marks: the JAM lastread file (numbers there do not change)","*.msg files have lower case names without leading zeros"]
def cases(tier,seed):
    n=2500 if tier=="quick" else 40000
    return [{"seed":seed*1000003+i} for i in range(n)]
DAY=86400
def patmatch(p,s):
    if p is None: return True
    for i,ch in enumerate(p):
        if ch=="*": return True
        if i>=len(s) or ch!="?" and ch.encode("latin-1").lower()!=s[i].encode("latin-1").lower(): return False
    return len(s)==len(p)
def state(w,a):
    """{number: (date, payload)} plus the mark"""
    p=w.root+a.path
    if a.base=="MSG":
        out={}
        for n in os.listdir(p):
            m=re.fullmatch(r"(\d+)\.msg",n)
            if m and int(m[1])>=2: out[int(m[1])]=(int(os.path.getmtime(p+"/"+n)),open(p+"/"+n,"rb").read())
        hw=0
        if os.path.exists(p+"/1.msg"): hw=read_msgfile(p+"/1.msg").replyto
        oth={n:open(p+"/"+n,"rb").read() for n in os.listdir(p) if not re.fullmatch(r"\d+\.msg",n)}
        return out,hw,oth
    j=w.jam(a)
    if j is None: return {},0,{}
    out={}
    for n,m in j.msgs.items(): out[n]=(m.received//DAY*DAY or m.processed//DAY*DAY or m.written,m)
    return out,0,j
def jkey(m): return (m.hdr[:52],m.attr&~JDELETED,m.attr2,m.tlen,m.pwcrc,m.cost,m.subs,m.text)
def run_case(case,ctx,o):
    r=random.Random(case["seed"]); g=G(r); kind="asan" if case["seed"]%6==1 else "plain"
    c=g.cfg(nnodes=2,nareas=r.randint(1,4),switches=[x for x in("MSG_HIGHWATER","JAM_HIGHWATER") if r.random()<.5],pw=False)
    for a in c.areas:
        if r.random()<.6: a.keepnum=r.choice([1,2,3,5,8,20])
        if r.random()<.5: a.keepdays=r.choice([1,2,7,30,365])
    if r.random()<.3: c.areas.append(Area("DEFAULT",c.akas[0].addr,"DEFAULT","MSG","ar/def",keepnum=1))
    if r.random()<.3: c.areas.append(Area("LOCAL_X",c.akas[0].addr,"LOCAL",r.choice(["MSG","JAM"]),"ar/loc",keepnum=r.choice([0,2]),keepdays=r.choice([0,3])))
    t=Toss(ctx,c,kind=kind); t.files=[]; w=t.w; t.hw={}; keys=[]
    B=lambda s,m:o.bad(s,m)
    real=[a for a in c.areas if a.base and a.kind!="DEFAULT"]
    if any(a.kind=="DEFAULT" for a in c.areas):
        for i in(2,3,4): write_msgfile(w.root+"ar/def/%d.msg"%i,"a","b","c","x",A(1,1,1),A(1,1,1),0,"text")
    def fill(a,n):
        p=w.root+a.path
        for _ in range(n):
            age=r.choice([0,0,1,2,3,6,7,8,29,30,31,100,364,366,3000,-5]); tm=w.now-age*DAY+r.choice([0,0,-3600,7200,-DAY//2])
            if a.base=="MSG":
                os.makedirs(p,exist_ok=True)
                ex=[int(x[:-4]) for x in os.listdir(p) if re.fullmatch(r"\d+\.msg",x)]
                num=max([1]+ex)+r.choice([1,1,1,2,5,100])
                at=r.choice([LOCAL,LOCAL|SENT,SENT,0,SENT|RECD]); k=t.local(g,a,attr=at,num=num,dest=r.choice(c.nodes).addr)
                f=p+"/%d.msg"%num
                if ex and r.random()<.3:
                    b=bytearray(open(f,"rb").read()); struct.pack_into("<H",b,184,r.choice(ex)&0xffff)
                    if r.random()<.3: struct.pack_into("<H",b,188,r.choice(ex)&0xffff)
                    open(f,"wb").write(b)
                os.utime(f,(tm,tm))
            else:
                num,_=t.local(g,a,attr=r.choice([LOCAL,LOCAL|SENT,SENT,0]),deleted=r.random()<.12,dest=r.choice(c.nodes).addr,to=None if r.random()<.93 else b"N"*r.choice([35,36,99,100,101,120,300]))
                j=w.jam(a); off=j.msgs[num].off; hr=bytearray(j.hr); k=r.random()
                wr,rc,pc=w.now-r.choice([0,5000])*DAY,0,tm
                if k<.3: wr,rc,pc=tm,0,0
                elif k<.5: wr,rc,pc=w.now-4000*DAY,tm,w.now-4000*DAY
                struct.pack_into("<III",hr,off+36,max(wr,0),max(rc,0),max(pc,0))
                if num>j.base and r.random()<.3: struct.pack_into("<III",hr,off+24,r.randint(j.base,num-1),0,0)
                open(p+".jhr","wb").write(hr)
                if r.random()<.1:        # a slot without a message
                    with open(p+".jdx","ab") as f: f.write(b"\xff"*8)
    def jlr(a):
        if a.base=="JAM" and os.path.exists(w.root+a.path+".jlr") and r.random()<.5: open(w.root+a.path+".jlr","wb").write(struct.pack("<IIII",1,1,r.randint(1,9),r.randint(1,9)))
    for a in real:
        fill(a,r.choice([0,1,4,12])); jlr(a)
        if a.base=="MSG" and r.random()<.5:
            n=[int(x[:-4]) for x in os.listdir(w.root+a.path) if x.endswith(".msg")]
            h=r.choice(n) if n and r.random()<.7 else r.randint(2,200)
            write_msgfile(w.root+a.path+"/1.msg","CrashMail II","All","HighWater mark","x",A(0,0,0),A(0,0,0),0x101,"",replyto=h); t.hw[a.tag]=h
        if a.base=="MSG" and r.random()<.3: open(w.root+a.path+"/lastread","wb").write(b"\5\0"); open(w.root+a.path+"/notes.txt","w").write("x")
    if r.random()<.4:
        d=[]; t.scan(d)
        for cat,s,m in d: B("scan:"+s,m)
        if d: t.close(); return
    for step in range(r.choice([1,2,3])):
        args=r.choice([["MAINT"],["PACK"],["MAINT","PACK"],["MAINT","PACK"],["PACK","MAINT","VERBOSE"],["VERBOSE"]]); pat=None
        if r.random()<.3:
            a=r.choice(real); pat=r.choice([a.tag,"".join(ch.swapcase() if ord(ch)<128 else ch for ch in a.tag),a.tag[:2]+"*","?"+a.tag[1:],"*","NOPE*",a.tag[:-1],a.tag+"?"]) or None
        pre={a.tag:state(w,a) for a in real}; tree={x:v for x,v in read_tree(w.root).items() if not x.startswith("ar/") or x.startswith("ar/def")}
        x=w.run("crashmaint",*args,"SETTINGS",w.root+"cm.prefs",*(["PATTERN",pat] if pat else []),tick=r.choice([2,2,DAY//3,DAY*40]))
        d=[]; runstate(x,d)
        for _,s,m in d: B(s,m)
        if d: break
        if x.rc!=0: B("rc","crashmaint returned %d: %s"%(x.rc,x.text[-300:])); break
        maint="MAINT" in args; pack="PACK" in args; today=w.now//DAY
        t2={x_:v for x_,v in read_tree(w.root).items() if not x_.startswith("ar/") or x_.startswith("ar/def")}
        if t2!=tree: B("outside","maintenance changed files outside the message bases: %s"%sorted(k for k in set(tree)|set(t2) if tree.get(k)!=t2.get(k))[:5])
        for a in real:
            old,hw,oth=pre[a.tag]; new,hw2,oth2=state(w,a); hit=patmatch(pat,a.tag); o.evals+=1
            act=sorted(n for n in old if not(a.base=="JAM" and old[n][1].deleted)); kill=set()
            if hit and maint:
                if a.keepnum:
                    k=len(act)-a.keepnum
                    if k>0: kill|=set(act[:k])
                if a.keepdays: kill|=set(n for n in act if today-old[n][0]//DAY>a.keepdays)
            keep=[n for n in act if n not in kill]
            o.count("messages kept",len(keep)); o.count("messages deleted",len(kill))
            keys.append((a.base,a.keepnum,a.keepdays,maint,pack,hit,len(keep),len(kill)))
            lost=None
            if a.base=="MSG":
                mp={n:(i+2 if hit and pack else n) for i,n in enumerate(keep)}
                if len(new)!=len(keep) or sorted(new)!=sorted(mp.values()):
                    B("msg:set","%s (%s %s keepnum %d keepdays %d): messages %s became %s, expected %s"%(a.tag,args,pat,a.keepnum,a.keepdays,[(n,today-old[n][0]//DAY) for n in act],sorted(new),sorted(mp.values()))); continue
                fixl=False
                for n,k in mp.items():
                    if new[k]!=old[n]:
                        if new[k][1]==old[n][1]: B("msg:date","%s: the date of message %d changed"%(a.tag,n))
                        elif new[k][1][:184]+new[k][1][186:188]+new[k][1][190:]!=old[n][1][:184]+old[n][1][186:188]+old[n][1][190:]: B("msg:content","%s: message %d changed"%(a.tag,n))
                # links: after renumbering they must name the same messages
                for n,k in mp.items():
                    for off in(184,188):
                        l0=struct.unpack_from("<H",old[n][1],off)[0]; l1=struct.unpack_from("<H",new[k][1],off)[0]
                        if l0 not in old or l0==0:
                            if l1!=l0 and l1!=0: B("msg:link","%s: link %d of message %d became %d"%(a.tag,l0,n,l1))
                            continue
                        want=mp.get(l0,0)
                        if l1==want: o.count("links kept"); continue
                        if l1==l0 and l0 not in new and want==0: o.count("links to deleted messages"); continue
                        if l1==l0 and hit and pack: B("msg:replylinks","%s: message %d is linked to number %d, which was renumbered to %s, and keeps the old number"%(a.tag,n,l0,want or "nothing (deleted)"))
                        elif l1==l0: o.count("links to deleted messages")
                        else: B("msg:link","%s: message %d linked to %d (now %s) is linked to %d"%(a.tag,n,l0,want,l1))
                cov=[n for n in keep if n<=hw]
                ok={hw} if not(hit and pack) and hw not in kill else {mp[max(cov)] if cov else 0}
                if hw in kill: ok|={0,mp[max(cov)] if cov else 0}
                if hw and hw not in old and hit and pack: ok={mp[max(cov)] if cov else 0}
                if not old and hw: ok={hw}
                if hw2 not in ok: B("msg:mark","%s: export mark %d became %d, expected %s (messages %s, kept %s)"%(a.tag,hw,hw2,sorted(ok),act,keep))
                t.hw[a.tag]=hw2 if a.tag in t.hw or hw2 else 0
                if oth!=oth2: B("msg:other","%s: other files in the directory changed"%a.tag)
            else:
                j=oth2; j0=oth
                if not isinstance(j,Jam):
                    if isinstance(j0,Jam): B("jam:gone","%s: the base disappeared"%a.tag)
                    continue
                for p in j.problems: B("jam:"+re.sub(r"[0-9a-f]{8}|\d+","N",p)[:60],"%s: %s"%(a.tag,p))
                got=[n for n in sorted(new) if not new[n][1].deleted]
                if got!=keep: B("jam:set","%s (%s %s keepnum %d keepdays %d): messages %s became %s, expected %s"%(a.tag,args,pat,a.keepnum,a.keepdays,[(n,today-old[n][0]//DAY) for n in act],got,keep)); continue
                for n in keep:
                    x0,x1=jkey(old[n][1]),jkey(new[n][1])
                    if x0!=x1: B("jam:content","%s: message %d changed: field %d"%(a.tag,n,next(i for i in range(len(x0)) if x0[i]!=x1[i])))
                if hit and pack:
                    dl=[n for n in new if new[n][1].deleted]
                    if dl: B("jam:deleted","%s: deleted messages %s are still in the packed base"%(a.tag,dl))
                    if j.dt and len(j.dt)!=sum(new[n][1].tlen for n in got): B("jam:text","%s: text file has %d bytes for %d bytes of text"%(a.tag,len(j.dt),sum(new[n][1].tlen for n in got)))
                if j.jlr!=j0.jlr: B("jam:lastread","%s: lastread file changed"%a.tag)
                top=lambda q:q.base+len(q.dx)//8
                if top(j)!=top(j0): B("jam:next","%s: the next message number changed from %d to %d"%(a.tag,top(j0),top(j)))
                if j.hr[24:1024]!=j0.hr[24:1024] or j.created!=j0.created or j.pwcrc!=j0.pwcrc: B("jam:base","%s: creation date, password or reserved part of the header changed"%a.tag)
                if (not hit or not(maint or pack)) and (j.hr,j.dx,j.dt)!=(j0.hr,j0.dx,j0.dt): B("jam:touched","%s: area outside the pattern was changed"%a.tag)
            for f in os.listdir(os.path.dirname(w.root+a.path)):
                if ".cmtemp" in f: B("jam:temp","temporary file %s left"%f)
        if [v for v in o.viol if v[0]!="msg:replylinks"]: break
        # life goes on
        k=r.random()
        if k<.5:
            if r.random()<.6:
                a=r.choice(real); fill(a,r.randint(1,3))
            d=[]; t.scan(d); o.count("scans after maintenance")
            for cat,s,m in d: B("scan:"+s,m)
            if d: break
        elif k<.7:
            ms=[(n.addr,g.net(c,n.addr,c.akas[0].addr,attr=0)[0]) for n in c.nodes]; f=[]; deliver(g,c,f,ms); t.inbound(f); d=[]; t.run(d)
            for cat,s,m in d: B("toss:"+s,m)
            if d: break
    o.key(sorted(keys),sorted(c.switches))
    if case["seed"]%200==1: o.sample={"areas":[k for k in keys[:4]]}
    t.close()
