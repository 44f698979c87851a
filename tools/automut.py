#!/usr/bin/env python3
"""development helper: automut.py WORKER NWORKERS [N]
Mechanical mutants (operators, constants, rounding, dropped statements) of all non-test code: those that pass the
repository's tests are run through sweeps of several profiles; prints which properties report them, or MISSED."""
import sys,subprocess,os,re,random,json
w,nw=int(sys.argv[1]),int(sys.argv[2]);N=int(sys.argv[3]) if len(sys.argv)>3 else 400
B=f"/tmp/am{w}";R=B+"/repo"
env=dict(os.environ,PATH="/root/.cargo/bin:"+os.environ["PATH"],RUSTUP_TOOLCHAIN="1.76-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",CARGO_TARGET_DIR=B+"/target",RUSTFLAGS="--cfg oraiswap_sim",SIM_WORK=B+"/work",SIM_EVIDENCE=B+"/ev",SIM_KNOWN="/dev/null",VERIF_SEED="1")
def sh(c,e=env,t=900):
    return subprocess.run(["nice","-n","10","timeout","-k","5",str(t),"bash","-c",c],env=e,text=True,capture_output=True,errors="replace")
for d in("work","ev","sim"): os.makedirs(f"{B}/{d}",exist_ok=True)
if not os.path.exists(R): sh(f"git clone -q /repo {R}")
sh(f"git -C {R} checkout -q -- . && git -C {R} fetch -q /repo && git -C {R} reset -q --hard FETCH_HEAD")
sh(f"cp -a /verif/sim/src /verif/sim/Cargo.lock {B}/sim/ && sed 's#/repo/#{R}/#' /verif/sim/Cargo.toml > {B}/sim/Cargo.toml")
s=open("/opt/vp/mkws.py").read().replace('"/repo", "/opt/vp/ws"',f'"{R}", "{B}/ws"');open(B+"/mkws.py","w").write(s)
C="contracts/oraiswap-v3/src/"
files=[C+x for x in "entrypoints/common.rs entrypoints/execute.rs entrypoints/query.rs interface.rs state.rs contract.rs math/clamm.rs math/log.rs math/types/fee_growth.rs math/types/sqrt_price.rs math/types/seconds_per_liquidity.rs math/types/token_amount.rs storage/fee_tier.rs storage/pool.rs storage/pool_key.rs storage/position.rs storage/tick.rs storage/tickmap.rs".split()]
files+=["wasm/"+x for x in "clamm.rs custom.rs math.rs swap.rs collections/tickmap.rs storage/pool.rs storage/tick.rs storage/pool_key.rs types/fee_growth.rs types/sqrt_price.rs log.rs".split()]
OPS=[(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" == "," != "),(r" \+ "," - "),(r" - "," + "),(r"&&","||"),(r"\|\|","&&"),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r"_up\(","("),(r"\bbig_mul\(","big_mul_up("),(r"\bbig_div\(","big_div_up("),(r"\bx_to_y\b","!x_to_y"),(r"by_amount_in\b","!by_amount_in"),(r"\blower_tick\b","upper_tick"),(r"_x\b","_y"),(r"\b0\b","1"),(r"\b1\b","2"),(r"checked_add","checked_sub"),(r"unchecked_add","unchecked_sub"),(r"unchecked_sub","unchecked_add"),(r"\+=","-="),(r"-=","+=")]
muts=[]
for f in files:
    p=R+"/"+f
    if not os.path.exists(p): print("no",f);continue
    L=open(p).read().split("\n");depth=None
    for i,l in enumerate(L):
        if re.match(r"\s*(#\[cfg\(test\)\]|mod tests)",l): break
        t=l.strip()
        if not t or t.startswith(("//","#","use ","pub use","pub mod","mod ","pub fn","fn ","impl","pub struct","assert","debug_")) : continue
        for a,b in OPS:
            for m in re.finditer(a,l):
                if "->" in l and a in(r" - ",r" > "): continue
                muts.append((f,i,l[:m.start()]+re.sub(a,b,m.group(0))+l[m.end():]))
        if re.match(r"^[a-z_\.\*]+(\(.*\)\??|\s*[-+]?=\s.*);$",t) or re.match(r"^(state::|self\.|pool\.|tick\.|POOLS)[^=]*\)\??;$",t): muts.append((f,i,"// dropped"))
        if re.match(r"^return Err\(.*\);$",t): muts.append((f,i,"// dropped"))
random.Random(int(os.environ.get("MUTSEED","78"))).shuffle(muts)
done=set()
log=B+"/done.json"
if os.path.exists(log): done=set(json.load(open(log)))
print(len(muts),"mutants",flush=True)
st=dict(build=0,killed=0,caught=0,missed=0)
for k,(f,i,n) in enumerate(muts[:N]):
    if k%nw!=w or k in done: continue
    done.add(k);json.dump(sorted(done),open(log,"w"))
    p=R+"/"+f;s=open(p).read();L=s.split("\n");o=L[i];L[i]=n;open(p,"w").write("\n".join(L))
    try:
        e2={a:b for a,b in env.items() if a!="RUSTFLAGS"};e2["CARGO_TARGET_DIR"]=B+"/ttarget"
        if f.startswith("wasm"):
            b=sh(f"cd {B}/sim && cargo build --release --offline")
            if b.returncode: st["build"]+=1;continue
        sh(f"python3 {B}/mkws.py")
        x=sh(f"cd {B}/ws && cargo test --workspace --offline --locked --no-run",e2,300)
        if x.returncode: st["build"]+=1;continue
        x=sh(f"cd {B}/ws && cargo test --workspace --offline --locked -- --test-threads 3",e2,100)
        if x.returncode: st["killed"]+=1;continue
        b=sh(f"cd {B}/sim && cargo build --release --offline")
        if b.returncode: st["build"]+=1;print("SIMBUILD",f,i+1,n.strip());continue
        props={}
        for prof,runs in(("C04",120),("C15",100),("C12",100),("C14",80),("C13",80),("C19",80),("C20",60),("C02",80),("C11",80)):
            r=sh(f"{B}/target/release/sim soak {prof} {runs} 5",t=300)
            for m in re.finditer(r"^ *(\d+) (C\d\d)|DIED",r.stdout,re.M):
                q=m.group(2) or "DIED";props[q]=props.get(q,0)+int(m.group(1) or 1)
            if r.returncode==124: props["TIMEOUT"]=1
            if sum(props.values())>20: break
        st["caught" if props else "missed"]+=1
        print("caught" if props else "MISSED",f"{f}:{i+1}",repr(o.strip()),"=>",repr(n.strip()),props,flush=True)
    finally: open(p,"w").write(s)
print(st,flush=True)
