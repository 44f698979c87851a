#!/usr/bin/env python3
"""development helper: mutant.py [--tests] [--soak] [name|property...]
Applies each mutant of tools/mutants*.py to a scratch copy $BUGDIR/repo (default /tmp/bug), builds the simulator
against it and reports what the quick check of the mutant's property says (--soak: what a 400-run sweep with that
profile flags, for whichever property); --tests also runs the repository's tests on it."""
import sys,subprocess,os,re
sys.path.insert(0,os.path.dirname(__file__))
M={}
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if re.fullmatch(r"mutants\d*\.py",f): M.update(__import__(f[:-3]).M)
B=os.environ.get("BUGDIR","/tmp/bug");R=B+"/repo";C=R+"/contracts/oraiswap-v3/src/"
env=dict(os.environ,PATH="/root/.cargo/bin:"+os.environ["PATH"],RUSTUP_TOOLCHAIN="1.76-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",CARGO_TARGET_DIR=B+"/target",RUSTFLAGS="--cfg oraiswap_sim",SIM_WORK=B+"/work",SIM_EVIDENCE=B+"/ev",SIM_KNOWN="/dev/null",VERIF_SEED="1")
def sh(c,e=env,t=900):
    return subprocess.run(["timeout","-k","5",str(t),"bash","-c",c],env=e,text=True,capture_output=True)
for d in("work","ev","sim"): os.makedirs(f"{B}/{d}",exist_ok=True)
if not os.path.exists(R): sh(f"git clone -q /repo {R}")
sh(f"cp -a /verif/sim/src /verif/sim/Cargo.lock {B}/sim/ && sed 's#/repo/#{R}/#' /verif/sim/Cargo.toml > {B}/sim/Cargo.toml")
tests="--tests" in sys.argv;soak="--soak" in sys.argv
a=[x for x in sys.argv[1:] if not x.startswith("--")]
for name,(prop,edits) in M.items():
    if a and name not in a and prop not in a: continue
    sh(f"git -C {R} checkout -q -- . && git -C {R} fetch -q /repo && git -C {R} reset -q --hard FETCH_HEAD")
    ok=True
    for (f,o,n) in edits:
        p=(R+"/"+f[1:]) if f.startswith("/") else C+f
        s=open(p).read()
        if s.count(o)<1: print(name,"TEXT NOT FOUND in",f);ok=False;break
        open(p,"w").write(s.replace(o,n,1))
    if not ok: continue
    b=sh(f"cd {B}/sim && cargo build --release --offline")
    if b.returncode: print(name,"BUILD FAILED",b.stderr[-800:]);continue
    if soak:
        r=sh(f"{B}/target/release/sim soak {prop} 400 5",t=1200)
        print(name,"\n".join(l[:300] for l in r.stdout.splitlines() if re.match(r"^ *\d+ C|DIED",l)) or "nothing")
    r=sh(f"{B}/target/release/sim check {prop} quick",t=1200)
    t=""
    if tests:
        e2={k:v for k,v in env.items() if k not in("RUSTFLAGS",)};e2["CARGO_TARGET_DIR"]=B+"/ttarget"
        s=open("/opt/vp/mkws.py").read().replace('"/repo", "/opt/vp/ws"',f'"{R}", "{B}/ws"');open(B+"/mkws.py","w").write(s)
        sh(f"python3 {B}/mkws.py")
        x=sh(f"cd {B}/ws && cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8",e2,240)
        n=sum(int(m) for m in re.findall(r"(\d+) passed",x.stdout));f=sum(int(m) for m in re.findall(r"(\d+) failed",x.stdout))
        t=f"tests {n}/{f}" if n else "tests?"+x.stderr[-300:]
    print(f"{name:20s} {prop} rc={r.returncode} {t} {r.stdout.strip()[:230]!r}",flush=True)

