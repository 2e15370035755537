#!/usr/bin/env python3
"""Builds and validates /verif/seeded/<id> from gen/seeds/<id>.txt (in a scratch copy of /repo under /tmp).
Format: header lines 'property: ', 'needs: ', 'breaks: '; blocks '@@@@ path' old/====/new; '#### demo' Go test code."""
import sys, subprocess, os, json, glob, shutil, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root = "/tmp/w/seedrepo"
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
prelude = open(here + "/gen/seeds/prelude.go.txt").read()
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local HOME=${HOME:-/root}
f=$(mktemp); trap 'rm -f "$f"' EXIT
echo "{\\"Replace\\":{\\"$PWD/internal/relation_graph/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$f"
timeout 200 go test -vet=off -count=1 -timeout 120s -overlay "$f" -run '^TestDemo' ./internal/relation_graph
'''
def sh(cmd, cwd=root):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
os.makedirs("/tmp/w", exist_ok=True)
if not os.path.exists(root): subprocess.check_call(["cp", "-a", "/repo", root])
for fn in sorted(glob.glob(here + "/gen/seeds/*.txt")):
    name = os.path.basename(fn)[:-4]
    if name.endswith(".go"): continue
    if len(sys.argv) > 1 and not any(a in name for a in sys.argv[1:]): continue
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd")
    body = open(fn).read()
    head, rest = body.split("@@@@ ", 1)
    rest, demo = rest.split("#### demo\n")
    meta = {k: v.strip() for k, v in (l.split(":", 1) for l in head.strip().split("\n"))}
    ok = True
    for blk in ("@@@@ " + rest).split("@@@@ ")[1:]:
        path, r = blk.split("\n", 1)
        old, new = r.split("\n====\n")
        p = os.path.join(root, path.strip()); s = open(p).read()
        if s.count(old) != 1: print(name, "old text found", s.count(old), "times:", old[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new.rstrip("\n")))
    if not ok: continue
    r = sh("goimports -w $(git diff --name-only) && go build ./...")
    if r.returncode: print(name, "BUILD", r.stderr[:500]); continue
    r = sh("go test -json -vet=off -count=1 ./...")
    passed = set()
    for l in r.stdout.split("\n"):
        try: j = json.loads(l)
        except Exception: continue
        if j.get("Action") == "pass" and j.get("Test"): passed.add(j["Package"] + "/" + j["Test"])
    miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
    if miss: print(name, "BREAKS TESTS", miss[:4]); continue
    d = here + "/seeded/" + name
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    full = prelude.replace("//BODY", demo)
    open(d + "/demo_test.go", "w").write(full)
    sh(f"goimports -w {d}/demo_test.go", cwd=root)
    open(d + "/demo.sh", "w").write(DEMO)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    bad = sh(f"bash {d}/demo.sh")
    good = sh(f"bash {d}/demo.sh", cwd="/repo")
    if good.returncode != 0 or bad.returncode == 0 or "FAIL: TestDemo" not in bad.stdout + bad.stderr and "panic" not in bad.stdout+bad.stderr:
        print(name, "DEMO good", good.returncode, "bad", bad.returncode, (good.stdout+good.stderr)[-600:] if good.returncode else (bad.stdout+bad.stderr)[-600:]); shutil.rmtree(d); continue
    r = subprocess.run(["/tmp/zc", "-prop", "all", "-root", root, "-out", "/tmp/w/ev"], capture_output=True, text=True)
    v = re.findall(r"VIOLATION property=(C\d+)", r.stdout)
    print(name, meta["property"], "CAUGHT" if meta["property"] in v else "MISSED", v)
    cf = here + "/gen/caught.json"
    caught = json.load(open(cf)) if os.path.exists(cf) else {}
    caught[name] = sorted(set(v))
    json.dump(caught, open(cf, "w"), indent=0, sort_keys=True)
