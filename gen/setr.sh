# apply one refactor to /tmp/w/repo
V=0 python3 - "$1" <<'P'
import sys,subprocess,os
root="/tmp/w/repo"
subprocess.check_call(["git","-C",root,"fetch","-q","/repo","HEAD"]);subprocess.check_call(["git","-C",root,"reset","-q","--hard","FETCH_HEAD"])
for l in open(sys.argv[1]):
    if l.startswith("%%sed "):
        subprocess.run("sed -i -E '"+l[6:].strip()+"' $(git ls-files '*.go' | grep -v pb | grep -v '^test/')",shell=True,cwd=root,check=True)
for b in open(sys.argv[1]).read().split("@@@@ ")[1:]:
    path,rest=b.split("\n",1); old,new=rest.split("\n====\n")
    p=os.path.join(root,path.strip()); s=open(p).read(); assert old in s
    open(p,"w").write(s.replace(old,new.rstrip("\n"),1))
subprocess.run("goimports -w $(git diff --name-only)",shell=True,cwd=root)
P
