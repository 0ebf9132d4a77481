#!/usr/bin/env python3
"""Build and confirm planted bugs: build.py [id...]   (specs in seeds/spec_*.py)"""
import os, sys, subprocess, shutil, json, glob, tempfile
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(os.path.dirname(H))
S={}
def seed(id, prop, edits, needs, breaks, main, sh=None):
    assert id not in S
    S[id]=dict(prop=prop,edits=edits,needs=needs,breaks=breaks,main=main,sh=sh)
for f in sorted(glob.glob(H+"/spec_*.py")):
    exec(open(f).read())
def run(cmd,cwd,t=600):
    return subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
ids=sys.argv[1:] or [i for i in S if not os.path.exists(f"{V}/seeded/{i}/patch.diff")]
base=json.load(open("/opt/vp/BASELINE.json"))
for id in ids:
    s=S[id]
    W=f"/tmp/seed-{id}"
    shutil.rmtree(W,ignore_errors=True)
    subprocess.check_call(["cp","-a","/repo",W])
    for (f,a,b) in s["edits"]:
        p=f"{W}/{f}"; t=open(p).read()
        if t.count(a)!=1: print(id,"edit matches",t.count(a),"times:",a); break
        open(p,"w").write(t.replace(a,b))
    else:
        out=f"{V}/seeded/{id}"; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        diff=run("git diff",W).stdout
        # lines removed or changed must be the original repository's
        open(out+"/patch.diff","w").write(diff)
        # every line a patch removes must be one of the original repository's
        import re
        cur=None
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur=l[6:]
            m=re.match(r"@@ -(\d+)",l)
            if m: n=int(m.group(1)); continue
            if l.startswith("---") or l.startswith("+"): continue
            if l.startswith("-"):
                bl=run(f"git blame -s -L {n},{n} {cur}","/repo").stdout
                if not bl.startswith("^e4a4d5a"): print(id,"NOT ORIGINAL:",bl.strip())
            if cur and (l.startswith("-") or l.startswith(" ")): n+=1
        shutil.copy(H+"/demo.sh" if not s["sh"] else H+"/"+s["sh"],out+"/demo.sh"); os.chmod(out+"/demo.sh",0o755)
        for fn,tx in s.get("files",{}).items(): open(out+"/"+fn,"w").write(tx)
        if s["main"] is not None: open(out+"/main.rs","w").write(open(H+"/prelude.rs").read()+s["main"])
        json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(out+"/meta.json","w"),indent=1)
        r=run("CARGO_NET_OFFLINE=true cargo test --offline 2>&1 | grep -E '^test result|FAILED|failed|panicked|^error' ",W)
        tests_ok="FAILED" not in r.stdout and "error" not in r.stdout and "test result: ok" in r.stdout
        a=run(f"bash {out}/demo.sh","/repo"); b=run(f"bash {out}/demo.sh",W)
        ok=tests_ok and a.returncode==0 and b.returncode not in (0,9)
        print(id,s["prop"],"OK" if ok else "BAD","tests",tests_ok,"clean",a.returncode,"patched",b.returncode)
        if not ok: print(r.stdout[-1500:]); print(a.stdout[-1500:]); print("--"); print(b.stdout[-1500:])
        if not ok: shutil.rmtree(out)
    shutil.rmtree(W,ignore_errors=True)
