"""Compares what the program left with what the model predicts.  diff(...) returns [(category,signature,text)]"""
import re,os
from fido import *
from world import norm
import model
TOK=re.compile(rb"<<t\d+>>")
def toks(t): return b",".join(TOK.findall(t)[:3])
def ident(text,subj,auto=None): return (toks(text),)
def show(l): return " ".join(lat(b"|".join(x)) for x in l)[:400]
def seq(cat,where,exp,obs,out):
    """exp/obs: lists of identities; returns True if the same"""
    if exp==obs: return True
    se,so=sorted(exp),sorted(obs)
    if se!=so:
        e=list(se);extra=[]
        for x in so:
            if x in e: e.remove(x)
            else: extra.append(x)
        if e: out.append((cat+":missing",cat+":missing","%s: missing %s (expected %d, found %d)"%(where,show(e),len(exp),len(obs))))
        if extra:
            dup=[x for x in extra if x in exp]
            k="duplicate" if dup else "extra"
            out.append((cat+":"+k,cat+":"+k,"%s: %s %s (expected %d, found %d)"%(where,k,show(extra),len(exp),len(obs))))
    else: out.append((cat+":order",cat+":order","%s: order differs: expected %s found %s"%(where,show(exp),show(obs))))
    return False
def short(b): return repr(b)[:160]
def firstdiff(a,b):
    i=0
    while i<min(len(a),len(b)) and a[i]==b[i]: i+=1
    return "at %d: expected ...%s found ...%s (lengths %d/%d)"%(i,short(a[max(0,i-30):i+40]),short(b[max(0,i-30):i+40]),len(a),len(b))
def field(cat,where,name,e,o,out):
    if e!=o:
        out.append((cat,cat+":"+name,"%s: %s differs: %s"%(where,name,firstdiff(e,o) if isinstance(e,bytes) and isinstance(o,bytes) else "expected %r found %r"%(e,o))))
def cmp_out(sim,ob,out,flavs=True):
    """sim.out against Outbound ob"""
    for p in ob.problems: out.append(("pkt","pkt:"+re.sub(r"[0-9a-f]{8}|\d+","N",p)[:70],p))
    exp={}
    for dest,frm,typ,m in sim.out: exp.setdefault((dest,frm,typ),[]).append(m)
    obs={}; used=set()
    for k in ob.pkts:
        t="Echomail" if k.bundle else k.flav
        if t!="Echomail" and (k.dest,k.orig,t) in exp:
            # one packet file per system and priority: mail sent from several own addresses is appended to one packet
            fr=[q for q in exp if q[0]==k.dest and q[2]==t]
            for m in k.msgs:
                i=ident(m.text,m.subj); nt=norm(m.text)
                cand=[(norm(x.text)!=nt or (x.subj,x.to)!=(m.subj,m.to),q,id(x)) for q in fr for x in exp[q] if id(x) not in used and ident(x.text,x.subj)==i]
                if cand:
                    z,q,u=min(cand,key=lambda y:y[0]); used.add(u)
                else: q=next((q for q in fr if any(ident(x.text,x.subj)==i for x in exp[q])),(k.dest,k.orig,t))
                obs.setdefault(q,[]).append(m)
        else: obs.setdefault((k.dest,k.orig,t),[]).extend(k.msgs)
        n=sim.node(k.dest)
        pw=by(n.pw)[:8] if n else b""
        if k.bundle and n:
            want=next((x.capitalize() for x in("CRASH","HOLD","DIRECT") if x in n.flags),"Normal")
            if k.flav!=want and flavs: out.append(("flav","flav","bundle for %s has priority %s instead of %s"%(k.dest,k.flav,want)))
        got=k.pw.split(b"\0")[0]
        wantpw=pw
        if n and "NONETMAILPASSWORD" in n.flags and not k.bundle: wantpw=b""
        if n is None: wantpw=b""
        if got.lower()!=wantpw.lower(): out.append(("pktpw","pktpw","%s: packet password %r instead of %r"%(k.file,got,wantpw)))
    for key in sorted(set(exp)|set(obs)):
        e,o=exp.get(key,[]),obs.get(key,[])
        wh="to %s from %s (%s)"%key
        ie=[ident(m.text,m.subj) for m in e]; io=[ident(m.text,m.subj) for m in o]
        isnet=any(not m.echo for m in e) or (not e and any(not m.text.startswith(b"AREA:") for m in o))
        cat="out:net" if isnet else "out:echo"
        if not seq(cat,wh,ie,io,out): continue
        for a,b in zip(e,o):
            w="%s msg %s"%(wh,show([ident(a.text,a.subj)]))
            for f in("date","to","frm","subj"): field("outhdr",w,f,getattr(a,f),getattr(b,f),out)
            for f in("onode","onet","dnode","dnet"): field("outaddr",w,f,getattr(a,f),getattr(b,f),out)
            field("outattr",w,"attr",a.attr,b.attr,out); field("outhdr",w,"cost",a.cost,b.cost,out)
            if a.echo:
                ea,eb,es,ep=split_echo(a.text); oa,obd,os_,op=split_echo(b.text)
                field("outarea",w,"area",ea,oa,out); field("outbody",w,"body",norm(eb),norm(obd),out)
                field("seenby",w,"seenby",b"".join(es),b"".join(os_),out); field("path",w,"path",b"".join(ep),b"".join(op),out)
                if norm(a.text)!=norm(b.text): field("outtext",w,"text",norm(a.text),norm(b.text),out)
            else: field("outnet",w,"text",norm(a.text),norm(b.text),out)
def cmp_stored(sim,w,old,out,areas=None,imp0=0):
    """messages added to the bases since old ({tag: {number: record}}) against sim.imports[imp0:]"""
    exp={}
    for tag,mm in sim.imports[imp0:]: exp.setdefault(tag,[]).append(mm)
    for a in (areas or sim.cfg.areas):
        if not a.base or model.unexpanded(a): continue
        obs=[m for m in w.area_msgs(a) if m.num not in old.get(a.tag,())]
        e=exp.get(a.tag,[])
        cat="store:bad" if a.kind=="BAD" else "store:net" if a.kind=="NETMAIL" else "store:echo"
        wh="area %s"%a.tag
        def jt(m):
            if a.base=="JAM": return m.text+b" ".join(d for i,d in m.subs)
            return m.text
        if not seq(cat,wh,[(toks(m.text),) for m in e],[(toks(jt(m)),) for m in obs],out): continue
        for x,o in zip(e,obs):
            ww="%s msg %s"%(wh,lat(toks(x.text)))
            if a.base=="MSG":
                m=model.want_msg(x,sim.cfg)
                for f in("frm","to","subj","date"): field("sthdr",ww,f,getattr(m,f),getattr(o,f),out)
                field("stattr",ww,"attr",m.attr,o.attr,out); field("sthdr",ww,"cost",m.cost,o.cost,out)
                field("staddr",ww,"orig",m.orig,A(o.oz,o.onet,o.onode,o.op),out); field("staddr",ww,"dest",m.dest,A(o.dz,o.dnet,o.dnode,o.dp),out)
                field("stbody",ww,"text",norm(m.text),norm(o.text),out)
            else:
                m=model.want_jam(x,sim.cfg,sim.now)
                for f in("frm","to","subj"): field("sthdr",ww,f,getattr(m,f),getattr(o,f),out)
                field("stattr",ww,"attr",m.attr,o.attr,out); field("sthdr",ww,"cost",m.cost,o.cost,out)
                g=o.g
                field("staddr",ww,"oaddr",[m.oaddr],g("OADDR"),out)
                field("staddr",ww,"daddr",[m.daddr] if m.daddr else [],g("DADDR"),out)
                for f,k in(("msgid","MSGID"),("reply","REPLYID"),("pid","PID"),("flags","FLAGS")): field("stkludge",ww,f,getattr(m,f),g(k),out)
                field("stkludge",ww,"kludges",[norm(v) for v in m.kl],[norm(v) for v in g("FTSKLUDGE")],out)
                field("stsb",ww,"seenby",m.sb,g("SEENBY"),out); field("stpath",ww,"path",m.path,g("PATH"),out)
                t=o.text
                if not m.text and t==b"\0": t=b""
                field("stbody",ww,"text",norm(m.text),norm(t),out)
                if sorted(m.files)!=sorted((i,d) for i,d in o.subs if i in(9,11)): out.append(("stfiles","stfiles","%s: file fields"%ww))
                if m.written is not None: field("sthdr",ww,"written",m.written,o.written,out)
                field("jamcrc",ww,"msgidcrc",m.msgidcrc,o.msgidcrc,out); field("jamcrc",ww,"replycrc",m.replycrc,o.replycrc,out)
        if a.base=="JAM":
            j=w.jam(a)
            for p in (j.problems if j else []): out.append(("jam","jam:"+re.sub(r"[0-9a-f]{8}|\d+","N",p)[:60],"%s: %s"%(a.tag,p)))

LINKS=("replyto","reply1st","replynext","nextreply")
def cmp_old(sim,w,old,out,sent=(),gone=(),zones=True):
    """messages that were there before: unchanged, marked sent if listed in sent, removed if in gone ((tag,num))"""
    sent=set(sent); gone=set(gone)
    for a in sim.cfg.areas:
        if a.tag not in old or not old[a.tag]: continue
        now=dict((m.num,m) for m in w.area_msgs(a))
        for n,x in sorted(old[a.tag].items()):
            k=(a.tag,n); wh="area %s message %d"%(a.tag,n)
            if k in gone:
                if n in now: out.append(("old:kill","old:kill","%s was not deleted after sending"%wh))
                continue
            if n not in now:
                out.append(("old:lost","old:lost","%s disappeared"%wh)); continue
            m=now[n]
            if a.base=="MSG":
                wa=x.attr|(SENT if k in sent else 0)
                field("old:sent",wh,"attr",wa,m.attr,out)
                if k in sent and "MSG_WRITEBACK" in sim.cfg.switches:
                    for f in("frm","to","subj","date"): field("old:changed",wh,f,getattr(x,f),getattr(m,f),out)
                    if toks(m.text)!=toks(x.text): out.append(("old:changed","old:changed:text",wh+": text lost"))
                    continue
                for f in("frm","to","subj","date","text","onode","onet","dnode","dnet","cost"): field("old:changed",wh,f,getattr(x,f),getattr(m,f),out)
                for f in("dz","oz") if k not in sent else (): field("old:changed",wh,f,getattr(x,f),getattr(m,f),out)
                for f in("dp","op","timesread"): field("old:changed",wh,f,getattr(x,f),getattr(m,f),out)
            else:
                wa=x.attr|(JSENT if k in sent else 0)
                field("old:sent",wh,"attr",wa,m.attr,out)
                for f in("subs","text","written","msgidcrc","replycrc","cost"): field("old:changed",wh,f,getattr(x,f),getattr(m,f),out)
