#!/usr/bin/env python3
"""Automatic mutants, to find what the checks do not see.
usage: mutate.py SLOT OUT.jsonl N SEED FILE:feature:ID,ID[:from-to] ...
Works in /tmp/mut/SLOT/{repo,verif} (copies made on first use); never touches /repo."""
import json, os, random, re, subprocess, sys, time
slot, out, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
B = f"/tmp/mut/{slot}"; R = f"{B}/repo"; V = f"{B}/verif"
def sh(c, t=None, env=None):
    try: return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env, errors="replace")
    except subprocess.TimeoutExpired: return None
os.makedirs(B, exist_ok=True)
if not os.path.isdir(R): sh(f"git clone -q /repo {R}")
sh(f"git -C {R} fetch -q origin; git -C {R} checkout -q -- . ; git -C {R} reset -q --hard $(git -C /repo rev-parse HEAD)")
sh(f"mkdir -p {V} && rsync -a --delete --exclude target --exclude .git --exclude replays --exclude evidence --exclude seeded /verif/ {V}/ && mkdir -p {V}/replays {V}/evidence")
env = dict(os.environ, CARGO_TARGET_DIR=f"{V}/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", MC_VERIF=V, MC_STOP="1", MC_DEADLINE="60", VERIF_TIER="quick")
env.pop("RUSTFLAGS", None)
OPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
  (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+ ", [" - "]), (r" - ", [" + "]),
  (r" \* ", [" + "]), (r" / ", [" * "]), (r" >> ", [" << "]), (r" << ", [" >> "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
  (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b(\d+)\b", ["N+1", "N-1"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\.wrapping_add\(", [".wrapping_sub("]), (r"\.saturating_sub\(", [".saturating_add("]),
  (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"^(\s*)([a-z_\.\[\]]+(\.[a-z_]+)? = .*;|self\.[a-z_\.]+\(.*\)\??;|[a-z_]+\.(push|extend|extend_from_slice|copy_from_slice|clear|truncate|insert|reverse)\(.*\);)$", ["DEL"]), (r"\?;$", ["DROPQ"]), (r"if ([^{]+) \{$", ["NEG"])]
def cands(path, lo, hi):
    L = open(path).read().split("\n"); c = []; depth_test = None
    for i, l in enumerate(L):
        if re.match(r"\s*#\[cfg\(test\)\]", l) or re.match(r"\s*#\[test\]", l): break
        if not (lo <= i + 1 <= hi): continue
        s = l.strip()
        if s.startswith(("//", "#", "use ", "trace!", "debug!", "warn!", "info!", "error!", "///", "*", "pub const", "const", "pub use", "mod", "assert", "debug_assert", "impl", "pub fn", "fn", "let msg")) or "unreachable" in s or "format!" in s or "trace!" in s or "Err(" in s: continue
        code = l.split("//")[0]
        for k, (pat, reps) in enumerate(OPS):
            for m in re.finditer(pat, code):
                for r in reps:
                    if r in ("N+1", "N-1"):
                        if re.search(r'["\[]$', code[:m.start()]) and "[u8" in code: continue
                        v = int(m.group(1)) + (1 if r == "N+1" else -1)
                        if v < 0 or (m.start() and code[m.start()-1] in '._"'): continue
                        new = code[:m.start()] + str(v) + code[m.end():]
                    elif r == "DEL": new = m.group(1) + "// deleted"
                    elif r == "DROPQ": 
                        if "=" in code or "let" in code: continue
                        new = code[:m.start()] + ".ok();"
                    elif r == "NEG":
                        if "let " in m.group(1): continue
                        new = code[:m.start()] + f"if !({m.group(1)}) {{"
                    else: new = code[:m.start()] + r + code[m.end():]
                    c.append((i, l, new))
    return L, c
rng = random.Random(seed)
seen = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); seen.add((d["file"], d["line"], d["new"]))
for spec in sys.argv[5:]:
    f = spec.split(":"); path, feat, ids = f[0], f[1], f[2].split(",")
    lo, hi = (map(int, f[3].split("-")) if len(f) > 3 else (1, 10**9))
    full = f"{R}/crates/{path}"
    L, cs = cands(full, lo, hi)
    rng.shuffle(cs); k = 0
    lines_used = {}
    for (i, old, new) in cs:
        if k >= n: break
        if (path, i + 1, new.strip()) in seen or lines_used.get(i, 0) >= 1: continue
        M = list(L); M[i] = new
        open(full, "w").write("\n".join(M))
        t0 = time.time()
        b = sh(f"cd {V}/mc && nice cargo build --release --offline --no-default-features --features {feat}", 600, env)
        if b is None or b.returncode:
            open(full, "w").write("\n".join(L)); continue
        lines_used[i] = lines_used.get(i, 0) + 1
        k += 1; res = "MISSED"; by = ""
        for p in ids:
            r = sh(f"nice timeout 240 {V}/target/release/mc check {p}", 300, env)
            if r is None: res = "TIMEOUT " + p; break
            if r.returncode == 1: res = "caught"; by = p; break
            if r.returncode not in (0, 1): res = f"rc{r.returncode} {p} " + r.stdout[-200:]
        open(full, "w").write("\n".join(L))
        d = dict(file=path, line=i + 1, old=old.strip(), new=new.strip(), res=res, by=by, s=round(time.time() - t0))
        open(out, "a").write(json.dumps(d) + "\n")
    open(full, "w").write("\n".join(L))
