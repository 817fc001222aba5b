#!/usr/bin/env python3
"""Plant bugs.  usage:
  seed.py make SPEC.py      write seeded/<id>/{patch.diff,demo.sh,main.rs,meta.json} from the spec (edits against /repo HEAD)
  seed.py verify ID...      in a scratch worktree: patch applies, stable tests pass, demo 0 without / nonzero with the patch
  seed.py catch ID...       apply to /repo, run the property's quick check, undo
A spec defines bugs = [dict(id, property, needs, breaks, edits=[(file, old, new)], deps="zune-core={...}" lines, demo=rust source)]."""
import json, os, shutil, subprocess, sys
V = "/verif"; W = "/tmp/plant"
SED = lambda s: s.replace("/repo", W)
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
DEMO = '''#!/bin/bash
# run in the repository: builds main.rs against it in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/main.rs" "$t/src/main.rs"; cp "$repo/target/vp/Cargo.lock" "$t/Cargo.lock" 2>/dev/null || cp "$repo/Cargo.lock" "$t/Cargo.lock"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$t/Cargo.toml"
unset RUSTFLAGS CARGO_RESOLVER_LOCKFILE_PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cd "$t" && cargo build --offline -q 2>"$t/log" || { tail -30 "$t/log"; exit 4; }
timeout 120 "$t/target/debug/demo"
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
opt-level = 1
debug = 0
[dependencies]
%s
'''
def worktree():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.isdir(W): print(sh(f"git -C /repo worktree add --detach {W} HEAD").stdout)
    sh(f"git -C {W} checkout -q -- . ; git -C {W} checkout -q --detach {head}")
def make(spec):
    ns = {}; exec(open(spec).read(), ns)
    for b in ns["bugs"]:
        worktree()
        d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
        for f, old, new in b["edits"]:
            p = f"{W}/{f}"; s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True).stdout)
        open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/main.rs", "w").write(b["demo"].lstrip())
        deps = "\n".join(l if "=" in l else f'{l.split()[0]} = {{ path = "@REPO@/crates/{l.split()[0]}"{(", features = [" + ",".join(chr(34)+x+chr(34) for x in l.split()[1:]) + "]") if len(l.split()) > 1 else ""} }}' for l in b["deps"])
        open(f"{d}/Cargo.toml.in", "w").write(TOML % deps)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        print("made", b["id"])
    worktree()
def verify(ids):
    env = open("/opt/vp/env.sh").read(); os.makedirs("/tmp/plantvp", exist_ok=True)
    open("/tmp/plantvp/env.sh", "w").write(SED(env))
    open("/tmp/plantvp/test.sh", "w").write(SED(open("/opt/vp/test.sh").read()).replace("/opt/vp/env.sh", "/tmp/plantvp/env.sh"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ok = True
    for i in ids:
        worktree(); d = f"{V}/seeded/{i}"
        os.makedirs(f"{W}/target/vp", exist_ok=True); shutil.copy(f"{W}/Cargo.lock", f"{W}/target/vp/Cargo.lock")
        a = sh(f"bash {d}/demo.sh", cwd=W)
        r = sh(f"git -C {W} apply {d}/patch.diff")
        if r.returncode: print(i, "PATCH", r.stdout); ok = False; continue
        b = sh(f"bash {d}/demo.sh", cwd=W)
        t = sh("bash /tmp/plantvp/test.sh /tmp/plantvp/out.json")
        try: miss = sorted(stable - set(json.load(open("/tmp/plantvp/out.json"))["passed"]))
        except Exception as e: miss = [str(e), t.stdout[-800:]]
        good = a.returncode == 0 and b.returncode not in (0, 3, 4) and not miss
        print(i, "OK" if good else "BAD", "demo", a.returncode, b.returncode, "missing", miss[:6], flush=True)
        if not good: print("  clean:", a.stdout[-600:], "\n  patched:", b.stdout[-600:]); ok = False
        else: print("   ", b.stdout.strip()[-200:])
        worktree()
    return ok
def catch(ids):
    m = {c["property"]: c for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]}
    for i in ids:
        d = f"{V}/seeded/{i}"; p = json.load(open(f"{d}/meta.json"))["property"]
        if p not in m: print(i, p, "not claimed"); continue
        assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode: print(i, "no apply", r.stdout); continue
        try: c = sh(m[p]["quick_cmd"], cwd=V)
        finally: sh("git -C /repo checkout -- .")
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, p, "CAUGHT" if c.returncode == 1 and v else "MISSED", c.returncode, (v or [c.stdout[-300:]])[0][:250], flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2])
    if sys.argv[1] == "verify": sys.exit(0 if verify(sys.argv[2:]) else 1)
    if sys.argv[1] == "catch": catch(sys.argv[2:])
