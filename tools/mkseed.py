#!/usr/bin/env python3
"""development helper: mkseed.py <id> <mutant> — writes patch.diff, demo.sh, host.rs and Cargo.lock of seeded/<id>
(main.rs and meta.json are written by hand) and runs the demonstration on both trees."""
import sys,subprocess,os,shutil
sys.path.insert(0,os.path.dirname(__file__))
import mutants,mutants2
M={**mutants.M,**mutants2.M}
import mutants4,mutants5;M.update(mutants4.M);M.update(mutants5.M)
try:
    import mutants3;M.update(mutants3.M)
except ImportError: pass
sid,name=sys.argv[1:3]
D=f"/verif/seeded/{sid}";W="/tmp/seedrepo"
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
if not os.path.exists(W): sh(f"git clone -q /repo {W}")
sh(f"git -C {W} checkout -q -- . ; git -C {W} fetch -q /repo; git -C {W} reset -q --hard FETCH_HEAD")
for f in("demo.sh","host.rs"): shutil.copy(f"/verif/tools/demo/{f}",D)
shutil.copy("/verif/sim/Cargo.lock",D)
a=sh(f"bash {D}/demo.sh",cwd=W);print("clean",a.returncode,a.stdout.strip()[-300:])
for (f,o,n) in M[name][1]:
    p=(W+"/"+f[1:]) if f.startswith("/") else W+"/contracts/oraiswap-v3/src/"+f
    s=open(p).read();assert o in s,f
    open(p,"w").write(s.replace(o,n,1))
sh("rustfmt --edition 2021 --check x",cwd=W)
d=sh(f"git -C {W} diff").stdout;open(D+"/patch.diff","w").write(d)
b=sh(f"bash {D}/demo.sh",cwd=W);print("bug  ",b.returncode,(b.stdout+b.stderr).strip()[-300:])
sh(f"git -C {W} checkout -q -- .")
