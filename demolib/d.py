"""helper for the demonstrations: a scratch system and the programs built in the current directory"""
import os,sys,tempfile,subprocess,shutil,glob,time,atexit
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from fido import *
BIN=os.path.join(os.getcwd(),"bin")
class Sys:
    def __init__(s,cfg,head=True):
        s.root=tempfile.mkdtemp(prefix="dm")+"/"; atexit.register(shutil.rmtree,s.root,True)
        for d in("in","out","tmp","pkt","new","ar"): os.mkdir(s.root+d)
        h='SYSOP "Sys"\nLOGFILE "@cm.log"\nLOGLEVEL 6\nDUPEFILE "@dupes" 100\nDEFAULTZONE 2\nINBOUND "@in"\nOUTBOUND "@out"\nTEMPDIR "@tmp"\nCREATEPKTDIR "@new"\nPACKETDIR "@pkt"\nSTATSFILE "@cm.stats"\nAREAFIXNAME "AreaFix"\n' if head else ""
        s.cfg(h+cfg)
    def cfg(s,t): open(s.root+"cm.prefs","w",encoding="latin1").write(t.replace("@",s.root))
    def prefs(s): return open(s.root+"cm.prefs",encoding="latin1").read()
    def put(s,n,b,d="in"): open(s.root+d+"/"+n,"wb").write(b)
    def run(s,tool,*a,**k):
        r=subprocess.run([os.path.join(BIN,tool)]+[str(x) for x in a],cwd=s.root,stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=k.pop("timeout",60),**k)
        s.out=r.stdout.decode("latin1"); return r.returncode
    def cm(s,*a,**k): time.sleep(1.1); return s.run("crashmail","SETTINGS",s.root+"cm.prefs",*a,**k)
    def toss(s,*a): return s.cm("TOSS",*a)
    def pkts(s):
        """[(file, packet)] waiting to be sent, not bundled"""
        o=[]
        for p in sorted(glob.glob(s.root+"out*/*.?ut")+glob.glob(s.root+"out*/*.pnt/*.?ut")+glob.glob(s.root+"pkt/*.pkt")): o.append((p[len(s.root):],parse_pkt(open(p,"rb").read())))
        return o
    def sent(s): return [(str(k.dest),m) for _,k in s.pkts() for m in k.msgs]
    def jam(s,p): return read_jam(s.root+p) if os.path.exists(s.root+p+".jhr") else None
    def msgs(s,p):
        if os.path.exists(s.root+p+".jhr"): return [m for m in read_jam(s.root+p).msgs.values() if not m.deleted]
        b=read_msgbase(s.root+p); return [b[k] for k in sorted(b)]
def pkt(frm,to,msgs,pw=b""): return pkthdr(P(frm),P(to),pw)+b"".join(msgs)+b"\0\0"
def echo(frm,to,area,text=b"hello\r",msgid=None,sb=b"",path=b"",subj=b"s",name=b"All",sender=b"Me",attr=0,date=b"03 May 26  12:30:15"):
    t=b"AREA:"+by(area)+b"\r"+(b"\x01MSGID: "+by(msgid)+b"\r" if msgid else b"")+by(text)+b" * Origin: x ("+by(frm)+b")\r"
    if sb: t+=b"SEEN-BY: "+by(sb)+b"\r"
    if path: t+=b"\x01PATH: "+by(path)+b"\r"
    return mkmsg(P(frm),P(to),attr,date,name,sender,subj,t)
def net(frm,to,text=b"hello\r",subj=b"s",name=b"You",sender=b"Me",attr=0,intl=True,date=b"03 May 26  12:30:15",kl=b""):
    f,t=P(frm),P(to); k=b""
    if intl: k=by("\x01INTL %d:%d/%d %d:%d/%d\r"%(t[:3]+f[:3]))
    if f.p: k+=by("\x01FMPT %d\r"%f.p)
    if t.p: k+=by("\x01TOPT %d\r"%t.p)
    return mkmsg(f,t,attr,date,name,sender,subj,k+by(kl)+by(text))
def fail(x): print("FAIL:",x); sys.exit(1)
