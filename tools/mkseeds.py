#!/usr/bin/env python3
"""Makes and validates the planted bugs: mkseeds.py [--no-validate] [id ...].
Each seed is a list of textual edits against /repo's HEAD plus a demo program."""
import os, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo, extra_deps=""):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, deps=extra_deps)

DEMO_SH = r'''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here"/*.rs "$w/src/"
mv "$w/src/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/" 2>/dev/null
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
fawkes-crypto = { path = "$repo" }
fawkes-crypto_derive = { path = "$repo/fawkes-crypto_derive" }
rand = "=0.4"
typenum = "=1.12.0"
serde_json = "1.0"
borsh = "0.7.0"
num = "0.2.1"
linked-list = "0.0.3"
bellman = { version = "=0.3.1", package = "bellman_ce", default-features = false }
pairing = { version = "=0.18", package = "pairing_ce" }
ff = { version = "=0.7", package = "ff_ce" }
EOF
cd "$w" || exit 9
CARGO_TARGET_DIR="$w/target" cargo build --offline -q >"$w/log" 2>&1 || { tail -30 "$w/log"; exit 9; }
"$w/target/debug/demo"
'''
REC = r'''// A constraint system that records everything, so that constraints can be evaluated under any assignment.
#![allow(dead_code)]
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::native::num::Num;
pub use fawkes_crypto::native::bn256::Fr;
use std::cell::RefCell;
pub type N = Num<Fr>;
type Lc = Vec<(Index, N)>;
#[derive(Clone, Default)]
pub struct Rec {
    pub inputs: RefCell<Vec<Option<N>>>,
    pub aux: RefCell<Vec<Option<N>>>,
    pub cons: RefCell<Vec<[Lc; 3]>>,
}
fn lc<CS: ConstraintSystem<F = Fr>>(n: &CNum<CS>) -> Lc {
    n.lc.iter().cloned().collect()
}
impl ConstraintSystem for Rec {
    type F = Fr;
    fn alloc(&self, v: Option<N>) -> Index {
        self.aux.borrow_mut().push(v);
        Index::Aux(self.aux.borrow().len() - 1)
    }
    fn alloc_input(&self, v: Option<N>) -> Index {
        self.inputs.borrow_mut().push(v);
        Index::Input(self.inputs.borrow().len())
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        self.cons.borrow_mut().push([lc(a), lc(b), lc(c)]);
    }
}
impl Rec {
    fn val(&self, i: Index) -> N {
        match i {
            Index::Input(0) => Num::one(),
            Index::Input(k) => self.inputs.borrow()[k - 1].expect("unassigned input"),
            Index::Aux(k) => self.aux.borrow()[k].expect("unassigned wire"),
        }
    }
    pub fn eval_lc(&self, l: &Lc) -> N {
        l.iter().fold(Num::zero(), |s, (i, k)| s + *k * self.val(*i))
    }
    pub fn eval(&self, n: &CNum<Rec>) -> N {
        self.eval_lc(&lc(n))
    }
    pub fn set(&self, k: usize, v: N) {
        self.aux.borrow_mut()[k] = Some(v);
    }
    pub fn get(&self, k: usize) -> N {
        self.aux.borrow()[k].unwrap()
    }
    pub fn set_input(&self, k: usize, v: N) {
        self.inputs.borrow_mut()[k] = Some(v);
    }
    pub fn satisfied(&self) -> bool {
        self.cons.borrow().iter().all(|c| self.eval_lc(&c[0]) * self.eval_lc(&c[1]) == self.eval_lc(&c[2]))
    }
    pub fn shape(&self) -> (usize, usize, Vec<[Lc; 3]>) {
        (self.inputs.borrow().len(), self.aux.borrow().len(), self.cons.borrow().clone())
    }
}
'''
CLI_RS = r'''// A tool made from the bindings, run as a child process of the demo in a scratch folder.
use fawkes_crypto::circuit::{bool::CBool, num::CNum};
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field, signal::Signal};
use fawkes_crypto::native::num::Num;
use fawkes_crypto_derive::Signal;
use serde::{Deserialize, Serialize};
use std::process::{Command, Stdio};
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct Pub<F: Field> { pub a: Num<F>, pub b: Num<F> }
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct Sec<F: Field> { pub x: Num<F> }
#[derive(Clone, Signal)]
#[Value = "Pub<CS::F>"]
pub struct CPub<'a, CS: ConstraintSystem> { pub a: CNum<'a, CS>, pub b: CNum<'a, CS> }
#[derive(Clone, Signal)]
#[Value = "Sec<CS::F>"]
pub struct CSec<'a, CS: ConstraintSystem> { pub x: CNum<'a, CS> }
pub const PARAMS: u8 = 0;
pub fn main_circuit<'a, CS: ConstraintSystem>(p: &CPub<'a, CS>, s: &CSec<'a, CS>, _: &u8) {
    // b = x^2, a = x^3
    let q = s.x.square();
    (&q - &p.b).assert_zero();
    (&q * &s.x - &p.a).assert_zero();
}
pub fn data<F: Field>() -> (Pub<F>, Sec<F>) {
    let x: Num<F> = Num::from(5u64);
    (Pub { a: x * x * x, b: x * x }, Sec { x })
}
fawkes_crypto::groth16_ethereum_bindings!(eth, Pub<Fr>, CPub, Sec<Fr>, CSec, PARAMS, main_circuit, data);
fawkes_crypto::groth16_waves_bindings!(waves, Pub<Fr>, CPub, Sec<Fr>, CSec, PARAMS, main_circuit, data);
fawkes_crypto::groth16_waves_bindings_bn256!(wavesbn, Pub<Fr>, CPub, Sec<Fr>, CSec, PARAMS, main_circuit, data);
fawkes_crypto::groth16_near_bindings!(near, Pub<Fr>, CPub, Sec<Fr>, CSec, PARAMS, main_circuit, data);
/// in the child: run the tool and leave
pub fn child() {
    match std::env::var("BINDING").as_ref().map(|x| x.as_str()) {
        Ok("eth") => eth::cli_main(),
        Ok("waves") => waves::cli_main(),
        Ok("wavesbn") => wavesbn::cli_main(),
        Ok("near") => near::cli_main(),
        _ => return,
    }
    std::process::exit(0)
}
pub struct Tool(pub &'static str, pub std::path::PathBuf);
impl Tool {
    pub fn new(b: &'static str) -> Tool {
        let d = std::env::current_exe().unwrap().parent().unwrap().join(format!("work-{}", b));
        let _ = std::fs::create_dir_all(&d);
        Tool(b, d)
    }
    /// the output of a command, None if it failed
    pub fn run(&self, cmd: &str, opts: &[&str]) -> Option<String> {
        let o = Command::new(std::env::current_exe().unwrap()).env("BINDING", self.0).arg(cmd).args(opts).current_dir(&self.1).stderr(Stdio::null()).output().unwrap();
        if o.status.success() { Some(String::from_utf8(o.stdout).unwrap()) } else { None }
    }
    pub fn accepts(&self, opts: &[&str]) -> bool {
        self.run("Verify", opts).map_or(false, |o| o.contains("true"))
    }
    pub fn read(&self, n: &str) -> String { std::fs::read_to_string(self.1.join(n)).unwrap() }
    pub fn write(&self, n: &str, s: &str) { std::fs::write(self.1.join(n), s).unwrap() }
    /// keys, object, proof and inputs under the default names
    pub fn prepare(&self) {
        for c in &["Setup", "GenerateTestData", "Prove"] { self.run(c, &[]).expect(c); }
    }
}
'''
CLAP_RS = r'''// Stand-in for the command line parser: the command is the first word, then pairs "--name value".
pub use clapd::Clap;
pub fn command() -> String { std::env::args().nth(1).unwrap() }
pub fn arg(long: &str, short: &str, default: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    let (l, s) = (format!("--{}", long), format!("-{}", short));
    a.iter().position(|x| *x == l || *x == s).map_or(default.to_string(), |i| a[i + 1].clone())
}
pub trait Clap: Sized { fn parse() -> Self; }
'''
CLI_SH = DEMO_SH.replace("cd \"$w\" || exit 9", r'''cat >> "$w/Cargo.toml" <<EOF
clap = { path = "clap" }
serde = { version = "1.0", features = ["derive"] }
EOF
for c in clap clapd; do
  mkdir -p "$w/$c/src" && mv "$w/src/$c.rs" "$w/$c/src/lib.rs"
  printf '[package]\nname = "%s"\nversion = "0.0.1"\nedition = "2018"\n' $c > "$w/$c/Cargo.toml"
done
printf '[dependencies]\nclapd = { path = "../clapd" }\n' >> "$w/clap/Cargo.toml"
printf '[lib]\nproc-macro = true\n' >> "$w/clapd/Cargo.toml"
printf '[profile.dev]\nopt-level = 2\n' >> "$w/Cargo.toml"
cd "$w" || exit 9''')
exec(open(os.path.join(V, "tools", "seeds_table.py")).read())

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    validate = "--no-validate" not in sys.argv
    ids = args or list(SEEDS)
    work = "/tmp/seedwork"
    sh("rm -rf /tmp/seedwork && mkdir -p /tmp/seedwork && cp -a /repo /tmp/seedwork/repo", "/")
    r = work + "/repo"
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
    for id in ids:
        s = SEEDS[id]
        d = os.path.join(V, "seeded", id)
        os.makedirs(d, exist_ok=True)
        sh("git checkout -q -- .", r)
        for f, a, b in s["edits"]:
            t = open(r + "/" + f).read()
            if t.count(a) < 1:
                print(id, "EDIT DOES NOT APPLY", f, repr(a)); return 1
            t = t.replace(a, b, 1)
            open(r + "/" + f, "w").write(t)
        diff = sh("git diff", r).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(s["demo"])
        if "mod rec;" in s["demo"]:
            open(d + "/rec.rs", "w").write(REC)
        if "mod cli;" in s["demo"]:
            open(d + "/demo.sh", "w").write(CLI_SH)
            open(d + "/cli.rs", "w").write(CLI_RS)
            open(d + "/clap.rs", "w").write(CLAP_RS)
            shutil.copy(V + "/symb/clapd/src/lib.rs", d + "/clapd.rs")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if not validate: continue
        bad = sh("bash %s/demo.sh" % d, r, env=env)
        t = sh("cargo test --workspace --offline -- --test-threads 8", r, env=env)
        tests_ok = t.returncode == 0
        sh("git checkout -q -- .", r)
        good = sh("bash %s/demo.sh" % d, r, env=env)
        ok = tests_ok and good.returncode == 0 and bad.returncode not in (0, 9)
        print("%-28s %s tests=%s demo clean=%d patched=%d" % (id, "OK" if ok else "**BAD**", tests_ok, good.returncode, bad.returncode), flush=True)
        if not ok:
            print((good.stdout if good.returncode else bad.stdout)[-1500:])
            if not tests_ok: print(t.stdout[-1500:])
    sh("rm -rf /tmp/seedwork", "/")
main()
