#!/usr/bin/env python3
"""Mutation survey: mutate.py WORKERS SEED COUNT [file-substring ...]
Makes small syntactic changes of /repo in scratch copies under /tmp/mut, keeps those which compile and pass the tests,
and runs the quick checks of the properties anchored in the changed file until one reports.  Survivors are listed in
/tmp/mut/results.jsonl for inspection (many are equivalent)."""
import os, re, sys, json, random, subprocess, threading, queue
V = "/verif"; T = "/tmp/mut"
PROPS = {
 "src/circuit/bitify.rs": "C03 C13 C07 C05", "src/circuit/bool.rs": "C02 C04 C05 C03 C13 C01", "src/circuit/ecc.rs": "C06 C07 C08 C09 C05 C13",
 "src/circuit/eddsaposeidon.rs": "C12 C13", "src/circuit/mux.rs": "C04 C13 C07", "src/circuit/num.rs": "C01 C02 C04 C05 C03 C13",
 "src/circuit/poseidon.rs": "C10 C11 C13", "src/core/cs.rs": "C14", "src/core/signal.rs": "C05 C13 C02", "src/core/sizedvec.rs": "C17 C05",
 "src/core/seedbox.rs": "C25", "src/helpers/groth16/mod.rs": "C28 C21", "src/helpers/groth16/near.rs": "C24", "src/helpers/groth16/prover.rs": "C28 C21 C27", "src/core/osrng.rs": "C27",
 "src/helpers/groth16/verifier.rs": "C22 C23 C28", "src/native/ecc.rs": "C18 C19 C09 C20", "src/native/eddsaposeidon.rs": "C12",
 "src/native/num.rs": "C16 C15 C18 C10 C25", "src/native/poseidon.rs": "C10 C11 C30", "src/native/bls12_381.rs": "C20", "src/native/bn256.rs": "C20",
 "fawkes-crypto_derive/src/signal.rs": "C05", "src/macros.rs": "C31 C01 C16", "src/helpers/groth16/ethereum.rs": "C26",
}
SWAPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "),
 (r" > ", " >= "), (r" >= ", " > "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"&&", "||"), (r"\|\|(?! )", "&&"),
 (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\b3\b", "2"), (r"\b4\b", "8"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "+="),
 (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"\bif ", "if !"), (r"Num::one\(\)", "Num::zero()"), (r"Num::zero\(\)", "Num::one()"), (r"\.double\(\)", ""),
 (r"\.skip\(1\)", ""), (r"\.rev\(\)", ""), (r"\bSome\(", "None.or("), (r"is_even\(\)", "is_zero()"), (r"\?;", ".ok();"), (r"\.square\(\)", ""),
 (r"\.\.", "..="), (r"\bself\b", "other"), (r"\bother\b", "self"), (r"\.negate\(\)", ".clone()"), (r"-(?=[a-z(])", ""), (r"\.is_some\(\)", ".is_none()"), (r"<<", ">>"), (r">>", "<<")]
def code_lines(path):
    t = open(path).read().split("\n"); out = []
    for i, l in enumerate(t):
        if "#[cfg(test)]" in l: break
        s = l.strip()
        if not s or s.startswith(("//", "use ", "#", "pub use", "pub mod", "mod ", "}", "impl", "pub struct", "type ")): continue
        out.append(i)
    return t, out
def mutants(filters, rng):
    ms = []
    for f in PROPS:
        if filters and not any(x in f for x in filters): continue
        t, ls = code_lines("/repo/" + f)
        for i in ls:
            l = t[i]
            for a, b in SWAPS:
                for m in re.finditer(a, l):
                    if "fn " in l and "{" in l and a in (r"\bself\b", r"\bother\b", r" > "): continue
                    n = l[:m.start()] + b + l[m.end():]
                    if n != l: ms.append((f, i, l, n))
            if l.strip().endswith(";") and not l.strip().startswith(("let", "return", "self.0", "const")):
                ms.append((f, i, l, ""))
    rng.shuffle(ms)
    # spread over files
    by = {}
    for m in ms: by.setdefault(m[0], []).append(m)
    out = []
    while any(by.values()):
        for f in list(by):
            for _ in range(1 if len(by[f]) < 60 else 2):
                if by[f]: out.append(by[f].pop())
    return out
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", VERIF_SEED="1", VERIF_TIER="quick")
def sh(c, cwd, to=1200):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = "timeout"
        return R
lock = threading.Lock()
def setup(k):
    w = "%s/w%d" % (T, k)
    if not os.path.exists(w + "/ok"):
        sh("rm -rf %s; mkdir -p %s && cp -a /repo %s/repo && mkdir %s/verif && cd /verif && git archive HEAD | tar x -C %s/verif" % (w, w, w, w, w), "/")
        sh("rm -rf %s/verif/seeded; grep -rl '\"/repo' %s/verif --include=Cargo.toml --include=Cargo.lock --include=main.rs | xargs sed -i 's#\"/repo#\"%s/repo#'; touch %s/ok" % (w, w, w, w), "/")
    return w
def work(k, q, n):
    w = setup(k)
    while True:
        with lock:
            if n[0] <= 0: return
        try: f, i, l, new = q.get_nowait()
        except queue.Empty: return
        p = w + "/repo/" + f
        orig = open("/repo/" + f).read(); t = orig.split("\n")
        t[i] = new; open(p, "w").write("\n".join(t))
        r = sh("timeout 300 cargo test --workspace --offline -- --test-threads 4", w + "/repo", 320)
        rec = dict(file=f, line=i + 1, old=l.strip(), new=new.strip())
        if r.returncode == 0:
            rec["runs"] = {}
            rec["result"] = "SURVIVED"
            for pr in PROPS[f].split():
                c = sh("timeout 890 bash check.sh %s quick" % pr, w + "/verif")
                rec["runs"][pr] = c.returncode
                if c.returncode == 1 and "VIOLATION property=" + pr in c.stdout:
                    rec["result"] = "caught " + pr; break
                if c.returncode not in (0, 1): rec["note"] = c.stdout[-600:]
            with lock:
                n[0] -= 1
                open(T + "/results.jsonl", "a").write(json.dumps(rec) + "\n")
        open(p, "w").write(orig)
def main():
    nw, seed, count = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    q = queue.Queue()
    for m in mutants(sys.argv[4:], random.Random(seed)): q.put(m)
    print(q.qsize(), "candidates", flush=True)
    n = [count]
    ts = [threading.Thread(target=work, args=(k, q, n)) for k in range(nw)]
    [x.start() for x in ts]; [x.join() for x in ts]
main()
