"""Builds the programs under test from /repo's working tree, outside /repo."""
import os,sys,hashlib,shutil,subprocess,fcntl,glob,tempfile
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("CMV_REPO","/repo")
BUILD=os.path.join(VERIF,".build")
TOOLS=["crashmail","crashstats","crashlist","crashgetnode","crashmaint","crashwrite","crashexport","crashlistout"]
KINDS={
 "plain":"-O0 -g",
 "asan":"-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,shift,nonnull-attribute -fno-sanitize-recover=all",
 "msan":"-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-recover=all",
}
CLANG=("msan",)
class BuildError(Exception): pass
def _inputs():
    out=[]
    for r,d,f in os.walk(os.path.join(REPO,"src")):
        d.sort()
        for n in sorted(f):
            if n.endswith((".o",".a")): continue
            out.append(os.path.join(r,n))
    out.append(os.path.join(REPO,"Makefile"))
    return out
def srchash():
    h=hashlib.sha256()
    for f in _inputs():
        h.update(os.path.relpath(f,REPO).encode()); h.update(open(f,"rb").read())
    for f in sorted(glob.glob(VERIF+"/c/*.c")): h.update(open(f,"rb").read())
    h.update(repr(sorted(KINDS.items())).encode()+b"2")
    return h.hexdigest()[:16]
def get(kind="plain"):
    """-> directory holding the binaries (and pk)"""
    os.makedirs(BUILD,exist_ok=True)
    d=os.path.join(BUILD,kind+"-"+srchash())
    if os.path.exists(d+"/.ok"): return d
    with open(os.path.join(BUILD,kind+".lock"),"w") as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        if os.path.exists(d+"/.ok"): return d
        w=tempfile.mkdtemp(prefix="w-"+kind,dir=BUILD)
        try:
            for f in _inputs():
                t=os.path.join(w,os.path.relpath(f,REPO)); os.makedirs(os.path.dirname(t),exist_ok=True); shutil.copyfile(f,t)
            os.makedirs(w+"/src/obj",exist_ok=True); os.makedirs(w+"/bin",exist_ok=True)
            hook=w+"/hook.o"
            subprocess.check_call((["clang","-fsanitize=memory","-DCMV_MSAN","-w"] if kind in CLANG else ["gcc"])+["-O1","-c",VERIF+"/c/hook.c","-o",hook])
            env={k:v for k,v in os.environ.items() if k not in("CFLAGS","CPPFLAGS","LDFLAGS","MAKEFLAGS","CC","MAKELEVEL")}
            env["CFLAGS"]=KINDS[kind]+" "+hook+" -w"
            os.makedirs(w+"/nostrip"); open(w+"/nostrip/strip","w").write("#!/bin/sh\nexit 0\n"); os.chmod(w+"/nostrip/strip",0o755)
            if kind in CLANG: open(w+"/nostrip/gcc","w").write('#!/bin/sh\nexec clang "$@"\n'); os.chmod(w+"/nostrip/gcc",0o755)
            env["PATH"]=w+"/nostrip:"+env.get("PATH","/usr/bin:/bin")
            r=subprocess.run(["make","-j8","linux"],cwd=w,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            if r.returncode or not all(os.path.exists(w+"/bin/"+t) for t in TOOLS):
                r=subprocess.run(["make","linux"],cwd=w,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            if r.returncode or not all(os.path.exists(w+"/bin/"+t) for t in TOOLS):
                raise BuildError(r.stdout.decode("latin1")[-4000:])
            for x in("pk","inj"): subprocess.check_call(["gcc","-O1","-w",VERIF+"/c/%s.c"%x,"-o",w+"/bin/"+x])
            for old in glob.glob(os.path.join(BUILD,kind+"-*")):
                shutil.rmtree(old,ignore_errors=True)
            os.rename(w+"/bin",d)
            open(d+"/.ok","w").close()
        finally:
            shutil.rmtree(w,ignore_errors=True)
    return d
if __name__=="__main__":
    for k in (sys.argv[1:] or KINDS): print(get(k))
