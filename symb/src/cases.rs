use crate::bindings::cli;
use crate::driver::*;
use crate::engine::*;
use crate::field::S;
use crate::tok::{self, T};
use crate::world::*;
use crate::PRINTED;
use fawkes_crypto::base64;
use fawkes_crypto::circuit::{bool::CBool, num::CNum};
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field, signal::Signal};
use fawkes_crypto::native::num::Num;
use fawkes_crypto_derive::Signal;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::marker::PhantomData;
use typenum::U2;

#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct Pub<F: Field> {
    pub a: Num<F>,
    pub v: SizedVec<Num<F>, U2>,
    pub c: Num<F>,
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct Sec<F: Field> {
    pub x: Num<F>,
    pub y: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "Pub<CS::F>"]
pub struct CPub<'a, CS: ConstraintSystem> {
    pub a: CNum<'a, CS>,
    pub v: SizedVec<CNum<'a, CS>, U2>,
    pub c: CNum<'a, CS>,
}
#[derive(Clone, Signal)]
#[Value = "Sec<CS::F>"]
pub struct CSec<'a, CS: ConstraintSystem> {
    pub x: CNum<'a, CS>,
    pub y: CNum<'a, CS>,
}
pub const PARAMS: u64 = 3;
/// a = x y, v0 + 3 v1 = x, c = y^2
pub fn main_circuit<'a, CS: ConstraintSystem>(p: &CPub<'a, CS>, s: &CSec<'a, CS>, k: &u64) {
    (&s.x * &s.y - &p.a).assert_zero();
    (&p.v[0] + &p.v[1] * Num::from(*k) - &s.x).assert_zero();
    (s.y.square() - &p.c).assert_zero();
}
thread_local! {
    static DATA: RefCell<Option<(Pub<F>, Sec<F>)>> = RefCell::new(None);
}
pub fn test_data() -> (Pub<F>, Sec<F>) {
    DATA.with(|d| d.borrow().clone()).expect("data")
}
fn relation(p: &[S<13>], s: &[S<13>]) -> Fm {
    Fm::and(vec![s[0].m(&s[1]).eq_fm(&p[0]), p[1].a(&p[2].sc(3)).eq_fm(&s[0]), s[1].sq().eq_fm(&p[3])])
}

const ALL: [&str; 4] = ["ethereum", "waves", "waves_bn256", "near"];

/// a scratch folder, removed at the end
struct Dir(String);
impl Dir {
    fn new() -> Dir {
        let d = format!("{}/verif-c31-{}-{:?}", std::env::temp_dir().display(), std::process::id(), std::thread::current().id());
        let d = d.replace('(', "").replace(')', "");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch folder");
        Dir(d)
    }
    fn f(&self, n: &str) -> String {
        format!("{}/{}", self.0, n)
    }
    fn read(&self, n: &str) -> Vec<u8> {
        std::fs::read(self.f(n)).unwrap_or_default()
    }
    fn write(&self, n: &str, b: &[u8]) {
        std::fs::write(self.f(n), b).expect("scratch file")
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn fresh() -> Dir {
    tok::reset();
    world(|w| *w = World::default());
    PRINTED.with(|p| p.borrow_mut().clear());
    Dir::new()
}
fn printed() -> String {
    PRINTED.with(|p| p.borrow_mut().drain(..).collect::<Vec<_>>().join("\n"))
}
fn command(b: &str, cmd: &str, d: &Dir, files: &[(&str, &str)]) -> Result<String, String> {
    printed();
    let a: Vec<(&str, String)> = files.iter().map(|(k, v)| (*k, d.f(v))).collect();
    clap::set_args(cmd, &a);
    clap::set_dir(&d.0);
    attempt(|| cli(b)).map(|_| printed())
}
fn must(what: &str, r: Result<String, String>) -> bool {
    match r {
        Ok(_) => true,
        Err(e) => {
            check(format!("{} fails: {}", what, e), Fm::F);
            false
        }
    }
}
fn text64(b: &[u8]) -> Option<Vec<u8>> {
    base64::decode(std::str::from_utf8(b).ok()?.trim()).ok()
}
/// the words in a file of public inputs, by each binding's documented format
fn words(b: &str, file: &[u8]) -> Option<Vec<u64>> {
    match b {
        "ethereum" => serde_json::from_slice::<Vec<String>>(file).ok()?.iter().map(|s| s.parse().ok()).collect(),
        "near" => {
            let d = text64(file)?;
            if d.len() < 4 || d.len() != 4 + 8 * u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as usize {
                return None;
            }
            Some(d[4..].chunks(8).map(|c| c.iter().rev().fold(0, |z, x| z << 8 | *x as u64)).collect())
        }
        _ => {
            let d = text64(file)?;
            if d.len() % 8 != 0 {
                return None;
            }
            Some(d.chunks(8).map(|c| c.iter().fold(0, |z, x| z << 8 | *x as u64)).collect())
        }
    }
}
fn bytes_of(b: &str, w: &[u64]) -> Vec<u8> {
    let mut r = vec![];
    if b == "near" {
        r.extend_from_slice(&(w.len() as u32).to_le_bytes());
    }
    for x in w {
        if b == "near" {
            r.extend_from_slice(&x.to_le_bytes())
        } else {
            r.extend_from_slice(&x.to_be_bytes())
        }
    }
    r
}
fn file_of(b: &str, w: &[u64]) -> Vec<u8> {
    if b == "ethereum" {
        serde_json::to_vec(&w.iter().map(|x| x.to_string()).collect::<Vec<_>>()).unwrap()
    } else {
        base64::encode(&bytes_of(b, w)).into_bytes()
    }
}
fn says(out: &str) -> Option<bool> {
    match (out.contains("true"), out.contains("false")) {
        (true, false) => Some(true),
        (false, true) => Some(false),
        _ => None,
    }
}
fn sample(n: &str) -> (Pub<F>, Sec<F>, Vec<S<13>>, Vec<S<13>>) {
    let v: Vec<F> = ["a", "v0", "v1", "c"].iter().map(|x| T::var(&format!("{}{}", n, x))).collect();
    let s: Vec<F> = ["x", "y"].iter().map(|x| T::var(&format!("{}{}", n, x))).collect();
    (
        Pub { a: Num(v[0]), v: SizedVec(vec![Num(v[1]), Num(v[2])], PhantomData), c: Num(v[3]) },
        Sec { x: Num(s[0]), y: Num(s[1]) },
        v.iter().map(|x| x.n).collect(),
        s.iter().map(|x| x.n).collect(),
    )
}
fn eqs(a: &[S<13>], b: &[S<13>]) -> Fm {
    if a.len() != b.len() {
        return Fm::F;
    }
    Fm::and(a.iter().zip(b.iter()).map(|(x, y)| x.eq_fm(y)).collect())
}
/// setup, data, prove, verify; the second of two keys, proofs and inputs is used as well as the first
fn session(b: &'static str) {
    let d = fresh();
    for k in ["0", "1"].iter() {
        if !must("setup", command(b, "Setup", &d, &[("params", &format!("p{}", k)), ("vk", &format!("v{}", k))])) {
            return;
        }
    }
    check("setup generates one key", Fm::bool(world(|w| w.keys.len()) == 2));
    let mut want = vec![];
    for k in ["0", "1"].iter() {
        let (p, s, pv, sv) = sample(k);
        DATA.with(|x| *x.borrow_mut() = Some((p, s)));
        if !must("test data", command(b, "GenerateTestData", &d, &[("object", &format!("o{}", k))])) {
            return;
        }
        want.push((pv, sv));
    }
    DATA.with(|x| *x.borrow_mut() = None);
    // proof 0 from key 1 and object 0, proof 1 from key 0 and object 1
    for k in 0..2usize {
        let fs = [format!("p{}", 1 - k), format!("o{}", k), format!("r{}", k), format!("i{}", k)];
        if !must("prove", command(b, "Prove", &d, &[("params", &fs[0]), ("object", &fs[1]), ("proof", &fs[2]), ("inputs", &fs[3])])) {
            return;
        }
        let (pv, sv) = &want[k];
        check("prove makes one proof", Fm::bool(world(|w| w.proofs.len()) == k + 1));
        let (key, run) = match world(|w| w.proofs.get(k).cloned()) {
            Some(x) => x,
            None => return,
        };
        check("prove uses the parameters in the file", Fm::bool(key == 1 - k));
        check("prove and setup synthesize the same circuit", run.same_circuit(&world(|w| w.keys[1 - k].clone())));
        let ins: Option<Vec<S<13>>> = run.inputs.iter().map(|x| x.map(|n| n.0.n)).collect();
        check("the public inputs of the proof are the public values in order", ins.map_or(Fm::F, |i| eqs(&i, pv)));
        let sat = run.sat();
        check("all values are given to the prover", Fm::bool(sat.is_some()));
        if let Some(sat) = sat {
            check("the statement is the circuit on the given object", Fm::and(vec![Fm::implies(sat.clone(), relation(pv, sv)), Fm::implies(relation(pv, sv), sat)]));
        }
        let w = words(b, &d.read(&fs[3]));
        check("the inputs file lists the public values in order", w.map_or(Fm::F, |w| eqs(&w.iter().map(|x| tok::meaning::<13>(*x).1).collect::<Vec<_>>(), pv)));
    }
    for (v, r, i) in [(1usize, 0usize, 0usize), (0, 1, 1), (0, 0, 1), (1, 1, 0)].iter() {
        let n = world(|w| w.verified.len());
        let out = command(b, "Verify", &d, &[("vk", &format!("v{}", v)), ("proof", &format!("r{}", r)), ("inputs", &format!("i{}", i))]);
        let call = world(|w| w.verified.get(n).cloned());
        let (out, call) = match (out, call) {
            (Ok(o), Some(c)) => (o, c),
            (Err(e), _) => {
                check(format!("verify fails on files written by the tool: {}", e), Fm::F);
                return;
            }
            _ => {
                check("verify does not verify", Fm::F);
                return;
            }
        };
        check("verify takes the key and the proof in the files", Fm::bool((call.0, call.1) == (*v, *r)));
        check("verify takes the inputs in the file, in order", eqs(&call.2.iter().map(|x| x.n).collect::<Vec<_>>(), &want[*i].0));
        check("verify reports the verdict", Fm::bool(says(&out) == Some(call.3 == 2)));
        check("one verification", Fm::bool(world(|w| w.verified.len()) == n + 1));
    }
    cover("end", Fm::T);
}
/// a command on files of other kinds or with broken contents
fn refuses(b: &'static str, what: &str, d: &Dir, vk: &str, proof: &str, inputs: &str) {
    let n = world(|w| w.verified.len());
    let out = command(b, "Verify", d, &[("vk", vk), ("proof", proof), ("inputs", inputs)]);
    let called = world(|w| w.verified.len()) > n;
    let yes = out.as_ref().ok().and_then(|o| says(o)) == Some(true);
    check(format!("verify takes {}", what), Fm::bool(!called && !yes));
}
fn files(b: &'static str, d: &Dir) -> bool {
    if !must("setup", command(b, "Setup", d, &[("params", "p"), ("vk", "v")])) {
        return false;
    }
    let (p, s, _, _) = sample("");
    DATA.with(|x| *x.borrow_mut() = Some((p, s)));
    let r = must("test data", command(b, "GenerateTestData", d, &[("object", "o")])) && must("prove", command(b, "Prove", d, &[("params", "p"), ("object", "o"), ("proof", "r"), ("inputs", "i")]));
    DATA.with(|x| *x.borrow_mut() = None);
    r
}
/// inputs files: every number of words up to n, each word any representation or a number outside the field
fn inputs(b: &'static str, n: usize) {
    let d = fresh();
    if !files(b, &d) {
        return;
    }
    let ws: Vec<F> = (0..n).map(|i| T::var(&format!("w{}", i))).collect();
    let good: Vec<u64> = ws.iter().map(|w| w.word()).collect();
    let vals: Vec<S<13>> = ws.iter().map(|w| w.n).collect();
    d.write("j", &file_of(b, &good));
    let k = world(|w| w.verified.len());
    let out = command(b, "Verify", &d, &[("vk", "v"), ("proof", "r"), ("inputs", "j")]);
    match (out, world(|w| w.verified.get(k).cloned())) {
        (Ok(o), Some(c)) => {
            check("verify takes the inputs in the file, in order", eqs(&c.2.iter().map(|x| x.n).collect::<Vec<_>>(), &vals));
            check("verify reports the verdict", Fm::bool(says(&o) == Some(c.3 == 2)));
        }
        // a wrong number of inputs may be refused before the verifier sees it
        (Err(_), None) if n != 4 => {}
        (Ok(o), None) if n != 4 => check("a wrong number of inputs is accepted", Fm::bool(says(&o) != Some(true))),
        (Err(e), _) => check(format!("verify fails on a file of {} inputs: {}", n, e), Fm::F),
        _ => check("verify does not verify", Fm::F),
    }
    let p: Vec<u8> = <F as fawkes_crypto::core::field::PrimeField>::char().0[0].to_be_bytes().to_vec();
    let p = p.iter().fold(0u64, |z, x| z << 8 | *x as u64);
    for i in 0..n {
        for bad in [p, p + 1, u64::MAX].iter() {
            let mut w = good.clone();
            w[i] = *bad;
            d.write("j", &file_of(b, &w));
            refuses(b, &format!("a number outside the field ({} of {})", i, n), &d, "v", "r", "j");
        }
    }
    if b != "ethereum" {
        let full = bytes_of(b, &good);
        for cut in 1..8usize.min(full.len() + 1) {
            d.write("j", base64::encode(&full[..full.len() - cut]).as_bytes());
            refuses(b, "inputs cut short", &d, "v", "r", "j");
        }
        for add in 1..8usize {
            let mut l = full.clone();
            l.extend(vec![0u8; add]);
            d.write("j", base64::encode(&l).as_bytes());
            refuses(b, "bytes after the inputs", &d, "v", "r", "j");
        }
    } else {
        let f = file_of(b, &good);
        d.write("j", &f[..f.len() - 1]);
        refuses(b, "inputs cut short", &d, "v", "r", "j");
        for w in ["-1", "0x1", "1.5", " 1", "", "x"].iter() {
            let mut l: Vec<String> = good.iter().map(|x| x.to_string()).collect();
            l.push(w.to_string());
            d.write("j", &serde_json::to_vec(&l).unwrap());
            refuses(b, &format!("the text {:?} as a number", w), &d, "v", "r", "j");
        }
    }
    cover("end", Fm::T);
}
fn kinds(b: &'static str) {
    let d = fresh();
    if !files(b, &d) {
        return;
    }
    refuses(b, "a proof as key", &d, "r", "r", "i");
    refuses(b, "a key as proof", &d, "v", "v", "i");
    refuses(b, "a missing file", &d, "v", "r", "none");
    refuses(b, "an empty key", &d, "e", "r", "i");
    d.write("e", b"");
    refuses(b, "an empty key file", &d, "e", "r", "i");
    refuses(b, "an empty proof file", &d, "v", "e", "i");
    // cut files, and (where the format has an end) files with something after the object
    for (f, n) in [("v", "key"), ("r", "proof")].iter() {
        let mut bad = vec![];
        let whole = d.read(f);
        if b == "ethereum" {
            bad.push(("something after the", [&whole[..], &b"1x"[..]].concat()));
            bad.push(("something after the", [&whole[..], &b" 7"[..]].concat()));
        } else {
            let t = match text64(&whole) {
                Some(t) => t,
                None => {
                    check("the file is base64", Fm::F);
                    return;
                }
            };
            for cut in 1..t.len() {
                bad.push(("a cut", base64::encode(&t[..cut]).into_bytes()));
            }
            if b == "near" {
                for add in 1..9usize {
                    bad.push(("something after the", base64::encode(&[&t[..], &vec![0u8; add][..]].concat()).into_bytes()));
                }
            }
            bad.push(("a text which is not base64 as", [&whole[..], &b"*"[..]].concat()));
        }
        for (w, x) in bad {
            d.write("bad", &x);
            refuses(b, &format!("{} {}", w, n), &d, if *f == "v" { "bad" } else { "v" }, if *f == "r" { "bad" } else { "r" }, "i");
        }
    }
    let n = world(|w| w.proofs.len());
    let r = command(b, "Prove", &d, &[("params", "v"), ("object", "o"), ("proof", "r2"), ("inputs", "i2")]);
    check("prove takes a key as parameters", Fm::bool(r.is_err() && world(|w| w.proofs.len()) == n));
    let r = command(b, "Prove", &d, &[("params", "p"), ("object", "i"), ("proof", "r2"), ("inputs", "i2")]);
    check("prove takes something else as object", Fm::bool(r.is_err() && world(|w| w.proofs.len()) == n));
    cover("end", Fm::T);
}
/// every output replaces an older, longer file
fn replaces(b: &'static str) {
    let d = fresh();
    let names = ["p", "v", "o", "r", "i", "s"];
    for n in names.iter() {
        d.write(n, "[1,2,3],x".repeat(10_000).as_bytes());
    }
    if !files(b, &d) {
        return;
    }
    let got: Vec<Vec<u8>> = names.iter().map(|n| d.read(n)).collect();
    check("the parameters file is replaced", Fm::bool(got[0].len() == 8));
    let (_, _, pv, _) = sample("");
    check("the inputs file is replaced", words(b, &got[4]).map_or(Fm::F, |w| eqs(&w.iter().map(|x| tok::meaning::<13>(*x).1).collect::<Vec<_>>(), &pv)));
    let out = command(b, "Verify", &d, &[("vk", "v"), ("proof", "r"), ("inputs", "i")]);
    must("verify after older files were replaced", out);
    cover("end", Fm::T);
}
/// options left out or given by their short names: the commands find each other's files
fn defaults(b: &'static str) {
    let d = fresh();
    let (p, s, pv, sv) = sample("");
    DATA.with(|x| *x.borrow_mut() = Some((p, s)));
    for c in ["Setup", "GenerateTestData", "Prove"].iter() {
        if !must(&format!("{} without options", c), command(b, c, &d, &[])) {
            return;
        }
    }
    DATA.with(|x| *x.borrow_mut() = None);
    if b == "ethereum" && must("generate-verifier without options", command(b, "GenerateVerifier", &d, &[])) {
        check("the contract is the one of the key", Fm::bool(d.read("verifier.sol") == contract(0).into_bytes()));
    }
    let out = command(b, "Verify", &d, &[]);
    match (out, world(|w| w.verified.get(0).cloned())) {
        (Ok(o), Some(c)) => {
            check("verify without options takes the inputs of prove", eqs(&c.2.iter().map(|x| x.n).collect::<Vec<_>>(), &pv));
            check("verify reports the verdict", Fm::bool(says(&o) == Some(c.3 == 2)));
        }
        (Err(e), _) => check(format!("verify fails without options: {}", e), Fm::F),
        _ => check("verify does not verify", Fm::F),
    }
    // short names
    for c in [("Setup", vec![("p", "p1"), ("v", "v1")]), ("Prove", vec![("p", "p1"), ("r", "r1"), ("i", "i1")]), ("Verify", vec![("v", "v1"), ("r", "r1"), ("i", "i1")])].iter() {
        if !must(&format!("{} with short options", c.0), command(b, c.0, &d, &c.1)) {
            return;
        }
    }
    let c = world(|w| w.verified.get(1).cloned());
    check("short options name the same files", c.map_or(Fm::F, |c| Fm::and(vec![Fm::bool((c.0, c.1) == (1, 1)), eqs(&c.2.iter().map(|x| x.n).collect::<Vec<_>>(), &pv)])));
    cover("end", Fm::T);
}
fn contract_file() {
    let b = "ethereum";
    let d = fresh();
    for k in ["0", "1"].iter() {
        if !must("setup", command(b, "Setup", &d, &[("params", &format!("p{}", k)), ("vk", &format!("v{}", k))])) {
            return;
        }
    }
    // an older, longer file is replaced
    d.write("sol", "x".repeat(200_000).as_bytes());
    for k in 0..2usize {
        if !must("generate-verifier", command(b, "GenerateVerifier", &d, &[("vk", &format!("v{}", k)), ("solidity", "sol")])) {
            return;
        }
        check("the contract is the one of the key in the file", Fm::bool(d.read("sol") == contract(k).into_bytes()));
    }
    cover("end", Fm::T);
}
fn c31(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for b in ALL.iter() {
        let b: &'static str = *b;
        v.push(case(format!("{}/session", b), "two keys, two objects, two proofs, four verifications; all values of the objects, all verdicts", move || session(b)));
        v.push(case(format!("{}/kinds", b), "files of the wrong kind", move || kinds(b)));
        v.push(case(format!("{}/replaces", b), "all outputs exist already and are longer", move || replaces(b)));
        v.push(case(format!("{}/defaults", b), "options left out; short option names", move || defaults(b)));
        for n in 0..if t == Tier::Quick { 8 } else { 20 } {
            v.push(case(format!("{}/inputs{}", b, n), format!("files of {} inputs: all values, each number outside the field in turn, cut and extended files", n), move || inputs(b, n)));
        }
    }
    v.push(case("ethereum/contract", "two keys", contract_file));
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        functions: &["groth16_ethereum_bindings!, groth16_waves_bindings!, groth16_waves_bindings_bn256!, groth16_near_bindings! (cli_main and all it calls)", "Num serde and Borsh impls (as called)", "derive(Signal) (as called)"],
        outside: "the Groth16 functions themselves (C21-C28; uninterpreted here), option parsing, other circuits, I/O errors of the operating system",
        cases: Box::new(c31),
    }]
}
