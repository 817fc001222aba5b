#!/usr/bin/env python3
"""Hand-written bugs, quickly.  usage: hand.py SLOT SPEC.py [OUT.jsonl]
SPEC.py defines M = [(file under crates/, old, new, feature, "C01,C02"), ...]; works in /tmp/mut/SLOT like mutate.py, runs only the checks."""
import json, os, subprocess, sys, time
slot, spec = sys.argv[1], sys.argv[2]; out = sys.argv[3] if len(sys.argv) > 3 else None
B = f"/tmp/mut/{slot}"; R = f"{B}/repo"; V = f"{B}/verif"
def sh(c, t=None, env=None):
    try: return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env, errors="replace")
    except subprocess.TimeoutExpired: return None
os.makedirs(B, exist_ok=True)
if not os.path.isdir(R): sh(f"git clone -q /repo {R}")
sh(f"git -C {R} fetch -q origin; git -C {R} checkout -q -- . ; git -C {R} reset -q --hard $(git -C /repo rev-parse HEAD)")
sh(f"mkdir -p {V} && rsync -a --delete --exclude target --exclude .git --exclude replays --exclude evidence --exclude seeded /verif/ {V}/ && mkdir -p {V}/replays {V}/evidence")
env = dict(os.environ, CARGO_TARGET_DIR=f"{V}/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", MC_VERIF=V, MC_STOP="1", MC_DEADLINE=os.environ.get("DL", "150"), VERIF_TIER=os.environ.get("TIER", "quick"))
env.pop("RUSTFLAGS", None)
ns = {}; exec(open(spec).read(), ns)
for n, (f, old, new, feat, ids) in enumerate(ns["M"]):
    p = f"{R}/crates/{f}"; s = open(p).read()
    if s.count(old) < 1: print(n, f, "NO MATCH", repr(old[:60]), flush=True); continue
    if s.count(old) > 1: print(n, f, "AMBIGUOUS", s.count(old), repr(old[:60]), flush=True); continue
    open(p, "w").write(s.replace(old, new)); t0 = time.time(); res = "MISSED"; by = ""
    b = sh(f"cd {V}/mc && cargo build --release --offline --no-default-features --features {feat}", 900, env)
    if b is None or b.returncode: res = "BUILD " + (b.stdout[-1500:] if b else "")
    else:
        for c in ids.split(","):
            r = sh(f"timeout 300 {V}/target/release/mc check {c}", 330, env)
            if r is None: res = "TIMEOUT " + c; break
            if r.returncode == 1: res = "caught"; by = c + " " + next((l for l in r.stdout.split("\n") if "VIOLATION" in l or "detail" in l), "")[:160]; break
            if r.returncode: res = f"rc{r.returncode} {c} " + r.stdout[-300:]
    open(p, "w").write(s)
    print(n, f, res, by, round(time.time() - t0), "" if res == "caught" else "  <<< " + new.strip()[:150].replace("\n", " | "), flush=True)
    if out: open(out, "a").write(json.dumps(dict(file=f, old=old, new=new, res=res, by=by)) + "\n")
