#!/usr/bin/env python3
# usage: runset.py DIR PROPS [filters]
import sys,subprocess,os,glob
from concurrent.futures import ThreadPoolExecutor
import queue
d,props=sys.argv[1],sys.argv[2]
only=sys.argv[3:]
J=int(os.environ.get("J","5"))
roots=queue.Queue()
files=[f for f in sorted(glob.glob(d+"/*.txt")) if not only or any(o in os.path.basename(f) for o in only)]
for i in range(min(J,len(files))):
    root=f"/tmp/w/repo{i}"
    if not os.path.exists(root): subprocess.check_call(["cp","-a","/repo",root])
    subprocess.check_call(["git","-C",root,"fetch","-q","/repo","HEAD"]); roots.put(root)
def one(fn):
    root=roots.get(); out=[]
    try:
        name=os.path.basename(fn)
        subprocess.check_call(["git","-C",root,"reset","-q","--hard","FETCH_HEAD"]); subprocess.check_call(["git","-C",root,"clean","-qfd"])
        body=open(fn).read()
        for l in body.split("\n"):
            if l.startswith("%%sed "):
                subprocess.run("sed -i -E '"+l[6:]+"' $(git ls-files '*.go' | grep -v pb | grep -v '^test/')",shell=True,cwd=root,check=True)
        for b in body.split("@@@@ ")[1:]:
            path,rest=b.split("\n",1)
            old,new=rest.split("\n====\n") if "\n====\n" in rest else (None,rest)
            p=os.path.join(root,path.strip())
            if old is None: open(p,"w").write(new); continue
            s=open(p).read()
            if old not in s: return f"{name} NOT FOUND {old[:80]}"
            s=s.replace(old,new.rstrip("\n"),1); open(p,"w").write(s)
        r=subprocess.run("goimports -w $(git diff --name-only) && go build ./...",shell=True,cwd=root,capture_output=True,text=True)
        if r.returncode: return f"{name} BUILD FAIL {r.stderr[:400]}"
        if os.environ.get("T"):
            r=subprocess.run(["go","test","./..."],cwd=root,capture_output=True,text=True)
            f=[l for l in r.stdout.split("\n") if l.startswith("--- FAIL") and "TestCreatePolicy" not in l]
            if f: out.append(f"{name} TESTS {f}")
        r=subprocess.run(["/tmp/zc","-prop",props,"-root",root,"-out",root+".ev"],capture_output=True,text=True)
        lines=(r.stdout+r.stderr).strip().split("\n")
        v=[l for l in lines if l.startswith("VIOLATION")]
        out.append(name+" "+("quiet" if not v and r.returncode==0 else "ALARM "+" ".join(x.split()[1].split("=")[1] for x in v)))
        if (v or r.returncode) and os.environ.get("V"):
            for l in [x for x in lines if not x.startswith(("OK","KNOWN"))][:int(os.environ["V"])]: out.append("      "+l[:300])
        return "\n".join(out)
    finally: roots.put(root)
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one,files): print(r,flush=True)
