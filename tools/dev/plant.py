#!/usr/bin/env python3
"""plant.py NAME...: builds /verif/seeded/NAME from /tmp/plants/NAME.py and evaluates it."""
import sys,os,subprocess,shutil,json,tempfile
ENV=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",HOME="/root",PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOPATH="/root/go",GOMODCACHE="/root/go/pkg/mod",GOCACHE="/root/.cache/go-build")
DEMO='''#!/bin/bash
# Runs the demonstration as an in-package test of the working tree in the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/files"
export ZZ_SCRATCH="$t/files"
cat > "$t/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go.txt"}}
EOF
go test %(flags)s-vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def run(args,cwd,timeout=400,env=ENV):
    p=subprocess.run(args,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
    return p.returncode,p.stdout.decode("utf8","replace")
def one(name):
    g={}
    exec(open("/tmp/plants/%s.py"%name).read(),g)
    d="/tmp/pl/"+name
    shutil.rmtree(d,ignore_errors=True); os.makedirs("/tmp/pl",exist_ok=True)
    out="/verif/seeded/"+name
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    shutil.copytree("/repo",d)
    run(["git","checkout","-q","--","."],d)
    for f,a,b in g["edits"]:
        s=open(d+"/"+f).read()
        if s.count(a)!=1: return "EDIT %s matches %d times: %r"%(f,s.count(a),a[:60])
        open(d+"/"+f,"w").write(s.replace(a,b))
    rc,diff=run(["git","diff"],d)
    open(out+"/patch.diff","w").write(diff)
    orig=0;rem=0;cur=None;ln=0
    base=subprocess.run(["git","-C","/repo","log","--format=%h","--grep=^fix:","--invert-grep","-n1"],stdout=subprocess.PIPE).stdout.decode().strip()
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur=l[6:]
        elif l.startswith("@@"): ln=int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            rem+=1
            _,o=run(["git","blame","-s","-L","%d,%d"%(ln,ln),cur],"/repo")
            if o.split()[0].lstrip("^").startswith(base[:7]): orig+=1
            ln+=1
        elif l.startswith(" "): ln+=1
    if orig==0: return "NO ORIGINAL LINE CHANGED (%d removed)"%rem
    open(out+"/demo.sh","w").write(DEMO%{"pkg":g["pkg"],"flags":g.get("flags","")}); os.chmod(out+"/demo.sh",0o755)
    open(out+"/demo_test.go.txt","w").write(g["demo"])
    json.dump({"property":g["prop"],"needs":g["needs"],"what_it_breaks":g["breaks"]},open(out+"/meta.json","w"),indent=1)
    # go.mod may be rewritten by -mod=mod: fine in a copy
    c="/tmp/pl/clean-"+name
    shutil.rmtree(c,ignore_errors=True); shutil.copytree("/repo",c)
    res=[]
    rc,o=run(["go","build","./..."],d)
    if rc: return "BUILD "+o[-800:]
    rc,o=run(["bash",out+"/demo.sh"],c)
    if rc: return "DEMO FAILS ON CLEAN "+o[-1500:]
    rc,o=run(["bash",out+"/demo.sh"],d)
    if rc==0: return "DEMO PASSES ON PATCHED "+o[-500:]
    if "build failed" in o or "panic: test timed out" in o and not g.get("hang"): return "DEMO DOES NOT BUILD "+o[-1500:]
    demo=o.strip().splitlines()[:6]
    rc,o=run(["go","test","-vet=off","-count=1","./..."],d)
    tests="tests ok" if rc==0 else "TESTS FAIL "+"\n".join([l for l in o.splitlines() if "FAIL" in l or "panic" in l][:8])
    if os.environ.get("NOCHECK"): return tests
    env=dict(os.environ,VERIF_REPO=d,VERIF_SEED="1",VERIF_TIER="quick"); env.setdefault("VERIF_WORKERS","8")
    if "secs" in os.environ: env["VERIF_SECS"]=os.environ["secs"]
    res=""
    for pr in os.environ.get("props",g["prop"]).split(","):
        rc,o=run(["python3","/verif/check.py",pr,"quick"],"/verif",900,env)
        v=[l for l in o.splitlines() if "VIOLATION" in l or "violation" in l or "no replay" in l or "trouble" in l.lower()]
        t=[l for l in o.splitlines() if l.startswith("[")]
        res+=" %s rc=%d %s %s"%(pr,rc,"; ".join(v)[:700],t[-1][:12] if t else "")
    shutil.rmtree(d,ignore_errors=True); shutil.rmtree(c,ignore_errors=True)
    return "%s | demo: %s |%s"%(tests," / ".join(demo)[:300],res)
for n in sys.argv[1:]:
    try: print("==",n,one(n),flush=True)
    except Exception as e: print("==",n,"EXC",repr(e),flush=True)
