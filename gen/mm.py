#!/usr/bin/env python3
# usage: mm.py PROPS <<< "@@@@ path\nold\n====\nnew\n@@@@ ..."   ; several mutants separated by lines "%%%% name"
import sys,subprocess,os
props=sys.argv[1]
root="/tmp/w/repo"
if not os.path.exists(root): subprocess.check_call(["cp","-a","/repo",root])
subprocess.check_call(["git","-C",root,"fetch","-q","/repo","HEAD"])
body=sys.stdin.read()
N=int(os.environ.get("N","1")); W=int(os.environ.get("W","190"))
for mu in ("%%%% "+body if not body.startswith("%%%% ") else body).split("%%%% ")[1:]:
    name,rest=mu.split("\n",1) if not mu.startswith("@@@@") else ("-",mu)
    subprocess.check_call(["git","-C",root,"reset","-q","--hard","FETCH_HEAD"]); subprocess.check_call(["git","-C",root,"clean","-qfd"])
    bad=False
    for b in rest.split("@@@@ ")[1:]:
        path,r=b.split("\n",1)
        old,new=r.split("\n====\n")
        p=os.path.join(root,path.strip()); s=open(p).read()
        if old not in s: print(name,"NOT FOUND",old[:70]); bad=True; break
        open(p,"w").write(s.replace(old,new.rstrip("\n"),1))
    if bad: continue
    r=subprocess.run("goimports -w $(git diff --name-only) && go build ./...",shell=True,cwd=root,capture_output=True,text=True)
    if r.returncode: print(name,"BUILD",r.stderr[:300]); continue
    t=""
    if os.environ.get("T"):
        r=subprocess.run(["go","test","./..."],cwd=root,capture_output=True,text=True)
        f=[l for l in r.stdout.split("\n") if l.startswith("--- FAIL") and "TestCreatePolicy" not in l]
        if f: t=" TESTS "+str(f[:2])
    r=subprocess.run(["/tmp/zc","-prop",props if "," not in props else "all","-root",root,"-out","/tmp/w/ev"],capture_output=True,text=True)
    lines=(r.stdout+r.stderr).strip().split("\n")
    v=[x.split()[1].split("=")[1] for x in lines if x.startswith("VIOLATION")]
    print("##",name,"CAUGHT "+" ".join(v) if v else "quiet",t)
    if v:
        shown=0
        for l in lines:
            if l.startswith(("OK","KNOWN")) : continue
            print("     ",l[:W]); shown+=1
            if shown>=N: break
