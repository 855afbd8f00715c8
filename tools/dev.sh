#!/bin/bash
# dev.sh CRATE BIN FLAVOUR [args...]: build one harness binary and run it with logging
cd "$(dirname "$0")/.." || exit 1
exec python3 - "$@" <<'P'
import os, sys, subprocess, time
sys.path.insert(0, '.')
import run
crate, b, f, *rest = sys.argv[1:]
fl = run.FLAVOURS[f]; r = {"crate": crate, "bin": b, "flavour": f}
env = run.env_for(fl, os.environ.get("VERIF_TIER", "quick"), os.environ.get("VERIF_SEED", "1"))
t = time.time()
if not fl.get("miri"):
    p = subprocess.run(run.cargo_args(fl, {"crate": crate, "bin": [b]}), env=env)
    print(f"build {time.time()-t:.1f}s rc={p.returncode}", flush=True)
    if p.returncode: sys.exit(p.returncode)
    cmd = [run.exe(fl, r)]
else:
    cmd = run.cargo_args(fl, r) + ["--"]
env["VMON_LOG"] = "1"
t = time.time()
os.makedirs("results", exist_ok=True)
p = subprocess.run(cmd + ["--flavour", f, "--out", f"results/dev.{b}.json"] + rest, env=env)
print(f"run {time.time()-t:.1f}s rc={p.returncode}")
sys.exit(p.returncode)
P
