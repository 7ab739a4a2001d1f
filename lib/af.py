"""Model of the AreaFix robot: what each request changes and answers (documentation: AreafixHelp.txt, example.prefs)."""
import re
from fido import *
import model,rdcfg
from model import Sim,MM,same4,P4,ieq
from cfg import Area
VERS=b"CrashMail 1"
def sw(s,n): return s if len(s)>=n else s+" "*(n-len(s))
def mkpath(defpath,tag,root=""):
    """storage place made from a default area's path"""
    t="".join("_" if ord(c)<33 or ord(c)>126 or c in "\"#'`()*,./:;<>|" else c for c in tag)
    full=root+defpath; o="";i=0
    while i<len(full) and len(o)<79:
        if full[i]=="%" and i+1<len(full) and full[i+1] in "aA": o=(o+t)[:79]; i+=2
        elif full[i]=="%" and i+1<len(full) and full[i+1] in "lL": o=(o+t.lower())[:79]; i+=2
        else: o+=full[i]; i+=1
    return o[len(root):]
class Reply:
    def __init__(s,sim,orig,to,dest,subj):
        s.sim=sim; s.orig=orig; s.to=to; s.dest=dest; s.subj=subj; s.text=b""; s.lines=0; s.part=1; s.all=[]
    def add(s,fmt,*a):
        mx=s.sim.cfg.afmaxlines
        if mx and s.lines>=mx-2:
            s.text+=b"\r(Continued in next message)\r"; s.send()
            s.text=b"(Continued from previous message)\r\r"; s.lines=2; s.part+=1
        l=fmt%a if a else fmt
        s.text+=by(l)+b"\r"; s.lines+=1; s.all.append(l)
    def cmd(s,c,r):
        if len(c)<=30: s.add("%-30s %s",c,r)
        else: s.add("%s",c); s.add("%-30s %s","",r)
    def send(s):
        s.sim.send(s.orig,by(s.sim.cfg.sysop),s.dest,s.to,s.subj if s.part==1 else "%s (part %d)"%(s.subj,s.part),s.text)
class AFSim(Sim):
    base=None        # callback: area -> [(number,record)], highest number
    root=""
    lists=()         # [(node addr,[(tag,desc)],group,forward,desc)]
    def send(s,orig,frm,dest,to,subj,text,tid=False):
        m=MM(); m.dest=dest; m.orig=orig; m.to=to; m.frm=frm; m.subj=by(subj); m.attr=PVT; m.date=by(fdate(s.now)); m.flags.add("AUTOGEN")
        k=s.netkludges(m)
        if not tid: k=k.replace(b"\x01TID: CrashMail II\r",b"")
        m.text=k+text; m.note=subj
        s.events.append(("auto",subj,dest)); s.handle(m)
    def autoadd(s,mm,n):
        a=super().autoadd(mm,n)
        if a.base:
            a.pat=a.path; a.path=mkpath(a.path,a.tag,s.root)
            a.clash=any(x is not a and x.kind!="DEFAULT" and x.base and x.path and x.path.lower()==a.path.lower() for x in s.cfg.areas)
        for l in s.lists:
            if n and l[0]==n.addr and l[4]:
                d=next((d for t,d in l[1] if t.lower()==a.tag.lower() and d),None)
                if d: a.desc=d[:77]; break
        return a
    # ---------------------------------------------------------------- the robot
    def gr(s,n,i): return (n.afinfo or ("","","",""))[i]
    def access(s,a,n):
        g=n.afinfo or ("","","","")
        return bool(a.group) and (a.group in g[1] or a.group in g[2])
    def link(s,a,n):
        for i,(m,x) in enumerate(a.exports):
            if x==n.addr: return i
        return None
    def areafix(s,mm):
        super().areafix(mm)
        r=s.route(mm.orig)
        if r is None: return
        me=P4(r[2]); s.afcount=getattr(s,"afcount",0)+1
        R=Reply(s,me,mm.frm,mm.orig,"AreaFix response")
        n=s.node(mm.orig)
        if n is None: R.add("Sorry, your node is not configured here."); R.send(); s.note("unknown"); return
        sub=lat(mm.subj); w,p=rdcfg.word(sub,0,100)
        if not ieq(w or "",(n.afinfo or ("",))[0][:39]): R.add("Sorry, wrong password."); R.send(); s.note("password"); return
        done=False; todo=set(); glob=False
        w,p=rdcfg.word(sub,p,100)
        if w and w.lower() in("-q","-l"): done=True; todo.add("list"); R.cmd(w,"Sending list of all areas")
        s.remote=[]
        for l in re.split(rb"[\r\n]",mm.text):
            raw=lat(l[:99]); end=raw.startswith("---")
            b=raw.lstrip(" ")
            while b and ord(b[-1])<33: b=b[:-1]
            if end: break
            if b[:1]=="%": done,glob=s.percent(R,n,b,todo,done,glob)
            elif b and b[0]!="\x01": done=True; s.arealine(R,n,me,b,glob)
        if not done: R.add("Nothing to do.")
        R.send()
        for k,t in(("list","FULL"),("query","QUERY"),("unlinked","UNLINKED")):
            if k in todo: s.sendlist(t,me,mm.frm,n)
        if "help" in todo: s.sendhelp(me,mm.frm,n)
        if "info" in todo: s.sendinfo(me,mm.frm,n)
        for x in s.cfg.nodes:
            c=[q for a,q in s.remote if a==x.addr]
            if c:
                r=s.route(x.addr)
                if r: s.send(P4(r[2]),by(s.cfg.sysop),x.addr,by((x.raf or ("",))[0]),(x.raf or ("",""))[1],b"".join(by(q)[:70]+b"\r" for q in c)+b"---\rGenerated by CrashMail\r",tid=True)
    def note(s,k): s.noted=getattr(s,"noted",{}); s.noted[k]=s.noted.get(k,0)+1
    def percent(s,R,n,b,todo,done,glob):
        w,p=rdcfg.word(b,0,100); k=w.upper(); s.note(k)
        if k=="%PAUSE":
            if "PASSIVE" in n.flags: R.cmd(b,"Your system is already passive")
            else:
                n.flags.add("PASSIVE"); done=True; R.cmd(b,"Your system is marked as passive"); R.cmd("","Send %RESUME to get echomail again")
        elif k=="%RESUME":
            if "PASSIVE" in n.flags: n.flags.discard("PASSIVE"); done=True; R.cmd(b,"Your system is active again")
            else: R.cmd(b,"Your system is not paused")
        elif k=="%PWD":
            w,p=rdcfg.word(b,p,40)
            if w is not None:
                g=n.afinfo or ("","","",""); n.afinfo=(w,)+tuple(g[1:]); done=True; R.cmd(b,"AreaFix password changed")
            else: R.cmd(b,"No new password specified")
        elif k=="%RESCAN":
            if s.sw("ALLOWRESCAN"): R.cmd(b,"Will rescan all areas added after this line"); glob=True
            else: R.cmd(b,"No rescanning allowed")
        elif k=="%COMPRESS":
            w,p=rdcfg.word(b,p,40)
            if w is not None:
                got=None
                if w[:1]!="?":
                    if w.upper()=="NONE": got=""
                    else:
                        got=next((q[0] for q in s.cfg.packers if q[0].upper()==w.upper() and q[1]),None)
                        if got is None: R.cmd(b,"Unknown packer. Choose from this list:")
                else: R.cmd(b,"Sending list of packers:")
                if got is not None: n.packer=got; R.cmd(b,"Packed changed")
                else:
                    for q in s.cfg.packers:
                        if q[1]: R.cmd("",q[0])
                    R.cmd("","NONE")
                done=True
            else: R.cmd(b,"No new method specified")
        elif k=="%LIST": todo.add("list"); done=True; R.cmd(b,"Sending list of all areas")
        elif k=="%QUERY": todo.add("query"); done=True; R.cmd(b,"Sending query")
        elif k=="%UNLINKED": todo.add("unlinked"); done=True; R.cmd(b,"Sending list of all unlinkedareas")
        elif k=="%HELP": todo.add("help"); done=True; R.cmd(b,"Sending help file")
        elif k=="%INFO": todo.add("info"); done=True; R.cmd(b,"Sending configuration info")
        else: done=True; R.cmd(b,"Unknown command")
        return done,glob
    def match(s,pat,tag):
        for i,c in enumerate(pat):
            if c=="*": return True
            if i>=len(tag): return False
            if c!="?" and by(c).lower()!=by(tag[i]).lower(): return False
        return len(pat)==len(tag)
    def arealine(s,R,n,me,b,glob):
        name=b; opt=""
        if "," in name:
            name,opt=name.rsplit(",",1); opt=opt.lstrip(" ")
        st=lambda x: x.rstrip("".join(chr(c) for c in range(33)))
        name,opt=st(name),st(opt)
        cmd="+"
        if name[:1] in("-","=","+"): cmd,name=name[0],name[1:]
        wild="*" in name or "?" in name
        if wild: R.add("%s",b); R.add("")
        done=exists=False; resc=None
        for a in list(s.cfg.areas):
            if a.kind!="ECHO" or a not in s.cfg.areas or not s.match(name,a.tag): continue
            exists=True; i=s.link(a,n)
            if cmd=="+":
                if i is None:
                    if s.access(a,n):
                        done=True
                        if n.addr in a.banned:
                            if wild: R.add("   You have been banned from %s",a.tag)
                            else: R.cmd(b,"You have been banned from that area")
                            s.note("banned")
                        else:
                            ro="DEFREADONLY" in a.flags or a.group and a.group in s.gr(n,2)
                            t=" as read-only" if ro else ""
                            if wild: R.add("   Attached to %s"+t,a.tag)
                            else: R.cmd(b,"Attached"+t)
                            a.exports.append(("!" if ro else "",n.addr)); resc=a; s.note("attached"+t)
                    elif not wild: R.cmd(b,"You don't have access to that area"); s.note("no access")
                else:
                    done=True; s.note("already")
                    if wild: R.add("   You are already attached to %s",a.tag)
                    else: R.cmd(b,"You are already attached to that area")
            elif cmd=="-":
                if i is None:
                    if not wild: R.cmd(b,"You are not attached to that area"); done=True
                else:
                    done=True; feed="%" in a.exports[i][0]
                    if "MANDATORY" in a.flags and not feed:
                        if wild: R.add("   You are not allowed to detach from %s",a.tag)
                        else: R.cmd(b,"You are not allowed to detach from that area")
                        s.note("mandatory")
                    else:
                        if wild: R.add("   Detached from %s",a.tag)
                        else: R.cmd(b,"Detached")
                        del a.exports[i]; s.note("detached")
                        if feed and s.sw("REMOVEWHENFEED"): s.removed(a)
                        elif s.sw("AREAFIXREMOVE") and not a.base and (not a.exports or len(a.exports)==1 and "%" in a.exports[0][0]):
                            if a.exports: s.remote.append((a.exports[0][1],("-"+a.tag)[:70]))
                            s.cfg.areas.remove(a); s.note("area removed")
            else:
                if i is not None:
                    done=True
                    if wild: R.add("   Nothing to do with %s",a.tag)
                    else: R.cmd(b,"Will rescan area"); resc=a
        if cmd in "=+" and not wild and done and resc is not None:
            mx=0; do=False
            if opt[:2].lower()=="r=":
                m=re.match(r"[ \t]*([+-]?\d+)",opt[2:]); mx=int(m[1]) if m else 0; do=True
            elif opt: R.add("%-30.30s Unknown option %s","",opt)
            if glob or do:
                if s.sw("ALLOWRESCAN"):
                    if not resc.base: R.add("%-30.30s Can't rescan, area is pass-through","")
                    else:
                        recs,hi=s.base(resc); resc.hi=hi
                        k=s.rescan(resc,recs,n,mx); R.add("%-30.30s Rescanned %s messages","",k); s.note("rescan"); s.note("rescanned") if k else None
                else: R.add("%-30.30s No rescanning allowed","")
        if cmd=="+" and not done:
            if wild: R.add("   There were no matching areas to connect to")
            elif not exists:
                l=None
                if "FORWARDREQ" in n.flags:
                    l=next((l for l in s.lists if l[3] and l[2] and l[2] in (n.afinfo or ("","","",""))[1] and any(t.lower()==name.lower() for t,_ in l[1])),None)
                if l:
                    R.cmd(b,"Request sent to %s"%str(l[0])); up=s.node(l[0]); s.note("forwarded")
                    s.remote.append((up.addr,("+" if up.raf and len(up.raf)>2 else "")+name))
                    q=MM(); q.area=by(name); q.pktorig=up.addr; q.pktdest=me
                    au="AUTOADD" in up.flags; up.flags.add("AUTOADD")
                    a=s.autoadd(q,up)
                    if not au: up.flags.discard("AUTOADD")
                    if s.sw("FORWARDPASSTHRU"): a.base=None; a.path=None
                    a.group=l[2]
                    if s.link(a,n) is None: a.exports.append(("!" if a.group and a.group in s.gr(n,2) else "",n.addr))
                else: R.cmd(b,"Unknown area"); s.note("unknown area")
        elif cmd=="-" and not done:
            if wild: R.add("   There were no matching areas to detach from")
            else: R.cmd(b,"Unknown area")
        elif cmd=="=":
            if not done:
                if wild: R.add("   There were no matching areas")
                else: R.cmd(b,"You are not attached to this area")
            elif resc is not None and not glob and not opt: R.cmd(b,"Nothing to do")
        if wild: R.add("")
    def removed(s,a):
        """feed left or operator removed the area: tell the downlinks, forget the area"""
        s.note("feed removed")
        for m,x in list(a.exports):
            n=s.node(x)
            if "SENDAREAFIX" in n.flags:
                s.send(a.aka,by(s.cfg.sysop),n.addr,by((n.raf or ("",))[0]),(n.raf or ("",""))[1],b"-"+by(a.tag)+b"\r---\rGenerated by CrashMail\r",tid=True)
            if "SENDTEXT" in n.flags and "%" not in m:
                s.send(a.aka,by(s.cfg.sysop),n.addr,by(n.rsysop or ""),"Area removed",b'The area "'+by(a.tag)+b'" has been removed by the uplink.\r'+(b"A message has been sent to your AreaFix.\r" if "SENDAREAFIX" in n.flags else b""),tid=True)
        s.cfg.areas.remove(a)
    # ---------------------------------------------------------------- lists
    def sendlist(s,typ,me,to,n):
        R=Reply(s,me,to,n.addr,"AreaFix list of areas")
        R.add("This is a list of all %s areas at %s:",{"QUERY":"connected","FULL":"available","UNLINKED":"unlinked"}[typ],me); R.add("")
        L=[]
        for a in s.cfg.areas:
            if a.kind!="ECHO": continue
            i=s.link(a,n); ok=s.access(a,n)
            if typ=="QUERY" and i is None or typ=="UNLINKED" and (i is not None or not ok) or typ=="FULL" and i is None and not ok: continue
            L.append((a.tag,a.desc,a.group,i is not None,i is not None and "%" in a.exports[i][0],s.week(a)))
        if s.sw("INCLUDEFORWARD") and typ!="QUERY" and "FORWARDREQ" in n.flags:
            for l in s.lists:
                if l[3] and l[2] and l[2] in (n.afinfo or ("","","",""))[1]:
                    for t,d in l[1]:
                        if any(ieq(t,a.tag) for a in s.cfg.areas) or any(ieq(t,x[0]) for x in L): continue
                        L.append((t,d[:77] if l[4] else "",l[2],False,False,"?"))
        L.sort(key=lambda x:(x[2],by(x[0]).lower()))
        s.note("listed"); last=None; lk=0
        for t,d,g,at,fe,wk in L:
            if last is None or last!=g:
                if last is not None: R.add("")
                R.add(" Group: %s",s.cfg.groupnames.get(g,"") if g else "<No group>"); R.add("")
                R.add(" Tagname                       Description                         KB/week"); R.add(" ----------------------------  ---------------------------------   -------")
            last=g; c=" "
            if typ=="FULL" and at: c="*"; lk+=1
            if fe: c="%"
            if len(t)<=28: R.add("%s%-28.28s  %-33.33s  %8.8s",c,t,d,wk)
            else: R.add("%s%-70.70s",c,t); R.add(" %-28.28s  %-33.33s  %8.8s","",d,wk)
        if typ=="QUERY": R.add("\r%d linked areas.",len(L)); R.add("A '%' means that you are the feed for the area.")
        elif typ=="UNLINKED": R.add("\r%d unlinked areas.",len(L))
        else:
            R.add("\rTotally %d areas, you are connected to %d of them.",len(L),lk)
            R.add("A '*' means that you are connected to the area."); R.add("A '%' means that you are the feed for the area.")
        R.send()
    def week(s,a): return "?"
    help=None
    def sendhelp(s,me,to,n):
        R=Reply(s,me,to,n.addr,"AreaFix help")
        if s.help is None: R.add("*** Error *** : Couldn't open help file")
        else:
            for l in s.help: R.add("%s",l)
        R.send(); s.note("help")
    def sendinfo(s,me,to,n):
        R=Reply(s,me,to,n.addr,"AreaFix configuration info"); g=n.afinfo or ("","","","")
        R.add("Configuration for %s:",n.addr); R.add("")
        R.add("           Sysop: %s",n.rsysop or ""); R.add("Packet  password: %s",n.pw); R.add("Areafix password: %s",g[0])
        R.add("          Packer: %s",n.packer or "No packer"); R.add("")
        for f,t in(("PASSIVE","You are passive and will not receive any echomail messages"),("TINYSEENBY","You receive messages with tiny SEEN-BY lines"),("NOSEENBY","You receive messages without SEEN-BY lines"),("FORWARDREQ","You may do forward-requests"),("NOTIFY","You will receive notifications"),("PACKNETMAIL","Netmail to you will be packed"),("AUTOADD","New areas from you will be auto-added")):
            if f in n.flags: R.add(" * "+t)
        R.add(""); R.add("You have full access to these groups:"); R.add("")
        nm=s.cfg.groupnames
        for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
            if c in g[1] and c not in g[2]: R.add("%s: %s",c,nm[c]) if nm.get(c) else R.add(c)
        R.add(""); R.add("You have read-only access to these groups:"); R.add("")
        for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
            if c in g[2]: R.add("%s: %s",c,nm.get(c,""))
        R.send(); s.note("info")
    def cmdlist(s,node,typ):
        """SENDQUERY and friends from the command line"""
        for n in s.cfg.nodes:
            if node=="ALL" and "NOTIFY" in n.flags or node==n.addr:
                r=s.route(n.addr)
                if r is None: continue
                me=P4(r[2]); to=by(n.rsysop or "")
                if typ=="HELP": s.sendhelp(me,to,n)
                elif typ=="INFO": s.sendinfo(me,to,n)
                else: s.sendlist(typ,me,to,n)
                if node!="ALL": return
def parsed(cfg,root): return rdcfg.parse(cfg.text(root))
