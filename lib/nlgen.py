"""Random node and point lists, built from a tree of systems (the truth is the tree, not a parse of the text)."""
import re
from fido import *
from model import P4
class Ent:
    def __init__(s,kind,a,region,hub,fields,line): s.kind=kind; s.a=a; s.region=region; s.hub=hub; s.fields=fields; s.line=line
class NL:
    def __init__(s): s.e={}; s.all=[]
    def add(s,x):
        s.all.append(x)
        if x.kind!="Down" and x.a not in s.e: s.e[x.a]=x
    def get(s,a): return s.e.get(A(*a))
    def exists(s,a): return A(*a) in s.e
    def region(s,a):
        x=s.get(A(*a[:3],0)); return x.region if x else None
    def hub(s,a):
        x=s.get(A(*a[:3],0)); return x.hub if x else None
W=["Foo","Bar_Baz","The_Board","S\xe5n","x","Node_in_the_woods","A-B.C","100","Zone","Hub","Point"]
def fields(r):
    f=[r.choice(W) for _ in range(3)]+[r.choice(["-Unpublished-","46-8-123456","000-0-0-0-0"]),r.choice(["300","9600","33600"])]
    k=r.choice([0,1,1,1])
    if k: f.append(",".join(r.sample(["CM","XA","V34","INA:host.example.net","IBN:24554","U,Tab","MO"],r.randint(1,4))))
    return f
class Gen:
    def __init__(s,r): s.r=r; s.lines=[]; s.cur=None
    def emit(s,nl,kind,num,a,region,hub):
        r=s.r; f=fields(r); kw=kind
        if r.random()<.1: kw=kw.upper() if r.random()<.5 else kw.lower()
        l=("%s,%d,"%("" if kind=="Node" else kw,num))+",".join(f)
        nl.add(Ent(kw if kind not in("Node",) else "Node",a,region,hub,f,l) if kind!="Down" else Ent("Down",a,region,hub,f,l))
        s.lines.append(l)
        if r.random()<.04: s.lines.append(r.choice([";A comment","; ,5,not,a,node",";",";S Host,77,x,y,z,1,2",""," ,7,indented,x,y,z,9600","Foo,9,x,y,z,1,300","Boss,2:5/6"]))
def num(r,lo=1,hi=400): return r.choice([r.randint(lo,hi),r.randint(lo,hi),r.randint(lo,65535),65535 if r.random()<.1 else lo])
def points(g,nl,a,region,hub,p):
    if g.r.random()<p:
        for k in sorted(set(num(g.r,1,30) for _ in range(g.r.randint(1,3)))): g.emit(nl,"Point",k,A(*a[:3],k),region,hub)
def net(g,nl,z,n,region,pp):
    r=g.r; used=set(); hub=0
    def one(kind):
        f=num(r)
        if f in used: return None
        used.add(f); return f
    for i in range(r.choice([0,2,5,12])):
        k=r.choice(["Node","Node","Node","Pvt","Hold","Down","Hub"])
        f=one(k)
        if f is None: continue
        if k=="Hub": hub=f
        g.emit(nl,k,f,A(z,n,f,0),region,hub)
        if k!="Down" or r.random()<.3: points(g,nl,A(z,n,f,0),region,hub,pp)
def nodelist(r,nl,zones=None,defzone=None,small=False,pp=.1):
    """-> text bytes. defzone: a regional list without Zone line"""
    g=Gen(r); g.lines.append(";A Nodelist for testing")
    for z in ([defzone] if defzone is not None else zones or r.sample([1,2,3,4,7,200],r.randint(1,3))):
        nets=set([z])
        if defzone is None:
            g.emit(nl,"Zone",z,A(z,z,0,0),0,0); net(g,nl,z,z,0,pp)
        region=0
        for _ in range(r.choice([0,1,2])):
            reg=num(r,10,60)
            if reg in nets: continue
            nets.add(reg); region=reg
            g.emit(nl,"Region",reg,A(z,reg,0,0),reg,0); net(g,nl,z,reg,reg,pp)
            for _ in range(r.choice([0,1,3])):
                n=num(r,100,600)
                if n in nets: continue
                nets.add(n); g.emit(nl,"Host",n,A(z,n,0,0),reg,0); net(g,nl,z,n,reg,pp)
        if not region:
            for _ in range(r.choice([1,2])):
                n=num(r,100,600)
                if n in nets: continue
                nets.add(n); g.emit(nl,"Host",n,A(z,n,0,0),0,0); net(g,nl,z,n,0,pp)
    return text(r,g)
def pointlist(r,nl,src):
    """a list repeating some systems of another list with their points"""
    g=Gen(r); last=None
    for x in src.all:
        if x.a.p or x.a.f==0 or r.random()<.5: continue
        if last is None or last[0]!=x.a.z: g.emit(nl,"Zone",x.a.z,A(x.a.z,x.a.z,0,0),0,0); last=(x.a.z,x.a.z)
        if last[1]!=x.a.n: g.emit(nl,"Host",x.a.n,A(x.a.z,x.a.n,0,0),0,0); last=(x.a.z,x.a.n)
        g.emit(nl,"Node",x.a.f,x.a,0,0); points(g,nl,x.a,0,0,.9)
    return text(r,g)
def text(r,g):
    e="\r\n" if r.random()<.7 else "\n"
    t=e.join(g.lines)+e
    if r.random()<.3: t+="\x1a"
    return t.encode("latin1")
