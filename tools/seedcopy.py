#!/usr/bin/env python3
"""Run the check of each planted bug against a scratch copy (development aid; /repo is not touched).
seedcopy.py [-all] [id-prefix...]   -all: run every check, not only the bug's own"""
import os,sys,shutil,subprocess,json,glob
S=os.environ.get("SC","/tmp/sc"); R=S+"/repo"
env=dict(os.environ,CARGO_NET_OFFLINE="true",VERIF_DIR=S+"/v",MC_CLI=S+"/t/cli/release/cdisk",VERIF_SEED="1")
def sh(c,cwd=None,t=900):
    try:
        p=subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t); return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 124,"timeout"
a=sys.argv[1:]; every="-all" in a; a=[x for x in a if x!="-all"]
os.makedirs(S+"/v/evidence",exist_ok=True); os.makedirs(S+"/v/replay",exist_ok=True)
sh(f"rm -rf {R} {S}/mc {S}/cli; cp -a /repo {R}; cp -a /verif/mc {S}/mc; cp -a /verif/cli {S}/cli; cp /verif/known-findings.txt {S}/v/; git -C {R} checkout -q -- .")
for d in (S+"/mc",S+"/cli"):
    p=d+"/Cargo.toml"; t=open(p).read().replace("/repo",R).replace("incremental = false","incremental = true"); open(p,"w").write(t)
for d in sorted(glob.glob("/verif/seeded/*/")):
    id=d.split("/")[-2]
    if a and not any(id.startswith(x) for x in a): continue
    prop=json.load(open(d+"meta.json"))["property"]
    rc,o=sh(f"git apply {d}patch.diff",R)
    if rc: print(id,"DOES NOT APPLY",o); continue
    rc,o=sh(f"cargo build --release --offline --target-dir {S}/t/mc 2>&1",S+"/mc")
    if rc: print(id,"BUILD",o[-500:])
    rc,o=sh(f"cargo build --release --offline --target-dir {S}/t/cli 2>&1",S+"/cli")
    res=[]
    for c in ([prop] if not every else [f"C{i:02}" for i in range(1,25)]):
        rc,o=sh(f"{S}/t/mc/release/mc {c} quick",t=900)
        if rc==1 and "VIOLATION property="+c in o: res.append(c+" CAUGHT")
        elif rc: res.append(f"{c} rc={rc} {o[-200:]}")
        elif not every: res.append(c+" MISSED")
    print(id,"; ".join(res),flush=True)
    sh("git checkout -q -- .",R)
