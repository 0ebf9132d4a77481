#!/usr/bin/env python3
"""Mutation screen (development aid, not a check): mutate.py FILE [start] [step]
Every simple mutant of a source file, in a scratch copy of /repo: does it compile, do the existing tests
notice, and which check notices first? Survivors are written to /tmp/mut/survivors.txt."""
import os,sys,re,subprocess,shutil,json,time
S=os.environ.get("MUT","/tmp/mut"); R=S+"/repo"; M=S+"/mc"; C=S+"/cli"
ORDER="C23 C11 C16 C15 C18 C17 C12 C22 C14 C10 C24 C01 C09 C02 C03 C13 C19 C06 C20 C07 C05 C21 C04 C08".split()
env=dict(os.environ,CARGO_NET_OFFLINE="true",VERIF_DIR=S+"/v",MC_CLI=S+"/t/cli/release/cdisk",VERIF_SEED="1")
BY={"header.rs":"C22 C14 C03 C12","file.rs":"C15 C16 C23 C24 C09 C01 C13 C08","mod.rs":"C18 C16 C10 C14 C17 C22 C12 C13 C01 C21 C24 C07 C04",
 "reader.rs":"C16","sprite.rs":"C18","petscii.rs":"C17 C24","image.rs":"C10 C07 C14 C03","util.rs":"C24","block.rs":"C10 C24 C12 C07 C09",
 "bam.rs":"C11 C02 C24 C14 C09 C03","d64.rs":"C10 C14 C11 C22 C03 C07","d71.rs":"C10 C14 C11 C22 C03 C07","d81.rs":"C10 C14 C11 C22 C03 C07","cdisk.rs":"C20"}
def sh(cmd,t=120,cwd=None):
    try:
        p=subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,env=env,cwd=cwd)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 124,""
def setup():
    shutil.rmtree(S,ignore_errors=True); os.makedirs(S+"/v/evidence"); os.makedirs(S+"/v/replay")
    sh(f"cp -a /repo {R}; cp -a /verif/mc {M}; cp -a /verif/cli {C}; cp /verif/known-findings.txt {S}/v/")
    for d in (M,C):
        p=d+"/Cargo.toml"; t=open(p).read(); open(p,"w").write(t.replace("/repo",R))
        t=open(p).read(); assert R in t,t
        open(p,"w").write(t.replace("incremental = false","incremental = true").replace("opt-level = 2","opt-level = 1"))
OPS=[
 (r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" == "," != "),(r" != "," == "),
 (r" && "," || "),(r" \|\| "," && "),(r" \+ "," - "),(r" - "," + "),(r" \+= "," -= "),(r" -= "," += "),
 (r"\btrue\b","false"),(r"\bfalse\b","true"),(r"\.\.=","..")
 ,(r"(?<![=.])\.\.(?=[\w(])","..=")
 ,(r"<< ",">> "),(r">> ","<< "),(r" & "," | "),(r" \| "," & "),
 (r"\b0x([0-9a-fA-F]+)\b",lambda m:hex(int(m.group(1),16)^1)),
 (r"(?<![\w.\"])(\d+)(?![\w.\"])",lambda m:str(int(m.group(1))+1)),
 (r"\bbreak\b","continue"),(r"\bcontinue\b","break"),(r"\.rev\(\)",""),(r"\.skip\((\w+)\)",""),(r"\bmin\(","max("),(r"\bmax\(","min("),(r"if !","if "),
]
def mutants(f):
    L=open(f).read().split("\n"); out=[]; depth=None
    for i,l in enumerate(L):
        if re.match(r"\s*#\[cfg\(test\)\]",l): break
        c=l.strip()
        if not c or c.startswith(("Track {","//","#[","use ","///","pub use","assert","*","mod ","pub mod")): continue
        if re.search(r'(writeln?!|println!|format!)',c) and 'f, ' not in c: pass
        code=l.split(" //")[0]
        for pat,rep in OPS:
            for m in re.finditer(pat,code):
                # not inside string literals
                if code[:m.start()].count('"')%2==1: continue
                n=code[:m.start()]+m.expand(rep) if isinstance(rep,str) else code[:m.start()]+rep(m)
                n+=code[m.end():]
                if n!=code: out.append((i,n))
        # statement removal
        if c.endswith(";") and not c.startswith(("let ","return","const ","static ","type ","}",")","pub ")) and (c.count("(")==c.count(")")):
            out.append((i,re.match(r"\s*",l).group(0)+"();" if c.startswith(".") is False else l))
    return L,[o for o in out if o[1]!=L[o[0]]]
def main():
    f=sys.argv[1]; start=int(sys.argv[2]) if len(sys.argv)>2 else 0; step=int(sys.argv[3]) if len(sys.argv)>3 else 1
    if not os.path.isdir(R): setup()
    p=R+"/"+f; orig=open("/repo/"+f).read()
    L,ms=mutants("/repo/"+f)
    order=os.environ.get("ORDER","").split() or BY.get(os.path.basename(f),"").split() or ORDER
    log=open(f"{S}/log.txt","a")
    def say(s): print(s,flush=True); log.write(s+"\n"); log.flush()
    say(f"# {f}: {len(ms)} mutants")
    stats={}
    done=open(f"{S}/log.txt").read()
    for k,(i,n) in enumerate(ms):
        if k%step!=start%step: continue
        T=list(L); T[i]=n; open(p,"w").write("\n".join(T))
        tag=f"{f}:{i+1} [{L[i].strip()}] -> [{n.strip()}]"
        if tag in done: continue
        rc,o=sh(f"cargo build --release --offline --target-dir {S}/t/mc 2>&1",cwd=M,t=300)
        if rc: stats["nocompile"]=stats.get("nocompile",0)+1; continue
        rc,o=sh(f"cargo test --offline --target-dir {S}/t/test 2>&1",cwd=R,t=60)
        if rc: stats["tests"]=stats.get("tests",0)+1; log.write(f"tests {tag}\n"); log.flush(); continue
        caught=None
        for c in order:
            if c=="C20": sh(f"cargo build --release --offline --target-dir {S}/t/cli 2>&1",cwd=C,t=300)
            rc,o=sh(f"{S}/t/mc/release/mc {c} quick",t=300)
            if rc: caught=(c,rc,o); break
        if caught is None:
            say("SURVIVED "+tag); stats["survived"]=stats.get("survived",0)+1
        else:
            stats[caught[0]]=stats.get(caught[0],0)+1
            odd="" if caught[1]==1 else f" rc={caught[1]}"
            log.write(f"caught {caught[0]}{odd} {tag}\n"); log.flush()
            if odd: print("ODD",caught[0],odd,tag)
    open(p,"w").write(orig)
    say(f"# {f}: {stats}")
main()
