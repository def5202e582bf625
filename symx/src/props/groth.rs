//! C27 honest Groth16 proofs: the real `generate_keys`, `prove` and `verify` over the symbolic pairing engine, with the
//! operating system's randomness replaced by recognisable words.
use crate::driver::*;
use crate::eng::*;
use crate::engine::*;
use crate::field::S;
use fawkes_crypto::circuit::bitify::c_into_bits_le;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::c_poseidon;
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove};
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, verify};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use std::cell::RefCell;

// ---- randomness -----------------------------------------------------------------------------
enum Src {
    /// word k is this constant
    Script(Vec<u64>),
    /// word k is the variable rand_k
    Sym,
}
thread_local! {
    static SRC: RefCell<Src> = RefCell::new(Src::Sym);
    /// the source words that became field elements, in order; 0: a word of another origin
    static SEEN: RefCell<Vec<u32>> = RefCell::new(vec![]);
}
/// one field element per 64 bits of the generator, as the real fields draw them; both halves must be words of the source
fn draw(w: u64, p: u64) -> Id {
    let n: Vec<u32> = [w >> 32, w & 0xffff_ffff].iter().map(|x| getrandom::serial(*x as u32).unwrap_or(0)).collect();
    let i = SEEN.with(|s| {
        s.borrow_mut().extend(&n);
        s.borrow().len() / 2
    });
    if n.contains(&0) {
        return with(|c| c.konst(w % p, p));
    }
    SRC.with(|s| match &*s.borrow() {
        Src::Script(v) => with(|c| c.konst(v[(i - 1) % v.len()], p)),
        Src::Sym => with(|c| c.var(&format!("rand{}", n[0].min(n[1])), p)),
    })
}
fn randomness(s: Src) {
    SRC.with(|x| *x.borrow_mut() = s);
    SEEN.with(|x| x.borrow_mut().clear());
    with(|c| c.rand_hook = Some(draw));
}
fn drawn() -> Vec<u32> {
    SEEN.with(|x| x.borrow().clone())
}

// ---- circuits -------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// one product, public
    Product,
    /// public inputs interleaved with private wires; linear combinations, a constant and a repeated signal made public
    Inputs,
    /// no public input
    Secret,
    Bits,
    Poseidon,
    Division,
    Composite,
}
struct Cir<const P: u64, const KI: usize> {
    w: Option<Vec<Num<S<P>>>>,
}
impl<const P: u64, const KI: usize> Default for Cir<P, KI> {
    fn default() -> Self {
        Cir { w: None }
    }
}
const KINDS: [Kind; 7] = [Kind::Product, Kind::Inputs, Kind::Secret, Kind::Bits, Kind::Poseidon, Kind::Division, Kind::Composite];
impl Kind {
    fn secrets(self) -> usize {
        match self {
            Kind::Secret | Kind::Bits | Kind::Poseidon => 1,
            Kind::Product | Kind::Division => 2,
            Kind::Inputs | Kind::Composite => 3,
        }
    }
}
fn build<'a, CS: ConstraintSystem>(k: Kind, cs: &'a CS, w: Option<&Vec<Num<CS::F>>>, pos: &PoseidonParams<CS::F>) -> Vec<CNum<'a, CS>>
where
    CS::F: Field,
{
    let s: Vec<CNum<CS>> = (0..k.secrets()).map(|i| CNum::alloc(cs, w.map(|v| &v[i]))).collect();
    let mut out = vec![];
    macro_rules! public {
        ($e:expr) => {{
            let x = $e;
            x.inputize();
            out.extend(x.linearize());
        }};
    }
    match k {
        Kind::Product => public!(&s[0] * &s[1]),
        Kind::Inputs => {
            public!(s[1].clone());
            let p = &s[0] * &s[1];
            public!(&p + &s[2] - Num::from(3u64));
            let q = &p * &s[2];
            public!(CNum::<CS>::from_const(cs, &Num::from(5u64)));
            public!(q);
            public!(s[1].clone());
        }
        Kind::Secret => {
            let p = s[0].square();
            let q = &p * &s[0];
            let _ = &q * &p;
        }
        Kind::Bits => {
            let b = c_into_bits_le(&(s[0].square() * Num::from(0u64) + &s[0]), <CS::F as ff::PrimeField>::NUM_BITS as usize);
            public!(b[0].clone());
            public!(b[1].clone());
        }
        Kind::Poseidon => public!(c_poseidon(&s[..1], pos)),
        Kind::Division => public!(&s[0] / &s[1]),
        Kind::Composite => {
            let bit = w.map(|v| v[2] == Num::from(1u64));
            let b = CBool::alloc(cs, bit.as_ref());
            let t = (s[0].clone(), (b.clone(), s[1].clone()));
            let u = (&s[2] * &s[0], (CBool::from_const(cs, &true), &s[0] * &s[1]));
            public!(t.switch(&b, &u));
        }
    }
    out
}
fn params<const P: u64>() -> PoseidonParams<S<P>> {
    PoseidonParams {
        c: vec![Num(S::k(3)), Num(S::k(5))],
        m: vec![vec![Num(S::k(2)), Num(S::k(1))], vec![Num(S::k(1)), Num(S::k(3))]],
        t: 2,
        f: 2,
        p: 0,
    }
}
impl<const P: u64, const KI: usize> Circuit for Cir<P, KI> {
    type F = S<P>;
    fn synthesize<CS: ConstraintSystem<F = S<P>>>(&self, cs: &CS) {
        build(KINDS[KI], cs, self.w.as_ref(), &params::<P>());
    }
    fn get_inputs(&self) -> Option<Vec<Num<S<P>>>> {
        None
    }
}

fn run<const P: u64, const KI: usize>(toxic: u64) {
    expand_products();
    getrandom::reset();
    reset();
    let kind = KINDS[KI];
    // key generation: some constants make a query vanish by accident in a small field; bellman refuses those
    let mut keys = None;
    let mut last = String::new();
    for t in 0..8u64 {
        let script: Vec<u64> = (0..7).map(|i| 2 + (toxic * 31 + t * 17 + i * 13 + i * i * 5) % (P - 3)).collect();
        randomness(Src::Script(script));
        match attempt(|| generate_keys::<Eng<P>, Cir<P, KI>>()) {
            Ok(k) => {
                keys = Some(k);
                break;
            }
            Err(m) => last = m,
        }
    }
    let keys = match keys {
        Some(k) => k,
        None => return check(format!("keys can be generated ({})", last), Fm::F),
    };
    let d = drawn();
    let mut u = d.clone();
    u.sort();
    u.dedup();
    check("key material comes from the operating system, no word twice", Fm::bool(d.len() >= 10 && !u.contains(&0) && u.len() == d.len()));

    // the witness and the public inputs it determines
    let w: Vec<Num<S<P>>> = (0..kind.secrets()).map(|i| Num(S::var(&format!("w{}", i)))).collect();
    if kind == Kind::Division {
        assume(w[1].0.is_zero_fm().not());
    }
    let rec = fawkes_crypto::core::cs::TestCS::<S<P>>::new();
    let inputs: Vec<S<P>> = match attempt(|| build(kind, &rec, Some(&w), &params::<P>()).iter().map(|x| x.get_value().expect("a value").0).collect()) {
        Ok(v) => v,
        Err(m) => return check(format!("the honest witness is refused ({})", m), Fm::F),
    };
    randomness(Src::Sym);
    let c = Cir::<P, KI> { w: Some(w) };
    let p1 = match attempt(|| prove(&c, &keys)) {
        Ok(p) => p,
        Err(m) => return check(format!("a proof is made ({})", m), Fm::F),
    };
    let p2 = match attempt(|| prove(&c, &keys)) {
        Ok(p) => p,
        Err(m) => return check(format!("a second proof is made ({})", m), Fm::F),
    };
    let r = drawn();
    let mut v = r.clone();
    v.sort();
    v.dedup();
    check("each proof draws two elements from fresh words of the operating system", Fm::bool(r.len() == 8 && v.len() == 8 && v.iter().all(|x| *x != 0 && !u.contains(x))));
    if r.len() == 8 && v.len() == 8 && v[0] != 0 {
        let x: Vec<S<P>> = r.chunks(2).map(|n| S::var(&format!("rand{}", n[0].min(n[1])))).collect();
        let same = Fm::and(vec![x[0].eq_fm(&x[2]), x[1].eq_fm(&x[3])]);
        let eq = Fm::and(vec![p1.0.a.0.eq_fm(&p2.0.a.0), p1.0.b.0.eq_fm(&p2.0.b.0)]);
        check("the randomness determines the first two proof elements one-to-one", Fm::iff(same, eq));
    }
    let tvk = truncate_verifying_key(&keys.vk);
    match attempt(|| verify(&tvk, &p1, &inputs)) {
        Ok(Ok(b)) => check("the proof verifies against the circuit's public inputs in order", Fm::bool(b)),
        Ok(Err(e)) => check(format!("verification fails: {:?}", e), Fm::F),
        Err(m) => check(format!("verification panics: {}", m), Fm::F),
    }
    cover("verified", Fm::T);
}

fn one<const P: u64, const KI: usize>(v: &mut Vec<Case>, toxic: u64) {
    v.push(case(
        format!("{:?}/p{}/setup{}", KINDS[KI], P, toxic),
        format!("circuit {:?} over GF({}), all witnesses, all prover randomness, setup constants {}", KINDS[KI], P, toxic),
        move || run::<P, KI>(toxic),
    ));
}
fn all<const P: u64>(v: &mut Vec<Case>, toxic: u64) {
    one::<P, 0>(v, toxic);
    one::<P, 1>(v, toxic);
    one::<P, 2>(v, toxic);
    one::<P, 4>(v, toxic);
    one::<P, 5>(v, toxic);
    one::<P, 6>(v, toxic);
}
fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    all::<97>(&mut v, 1);
    one::<97, 3>(&mut v, 1);
    if t == Tier::Thorough {
        for s in 2..6 {
            all::<97>(&mut v, s);
            all::<193>(&mut v, s);
        }
        one::<193, 3>(&mut v, 1);
        all::<257>(&mut v, 1);
    }
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        functions: &[
            "helpers/groth16/prover.rs: generate_keys, prove, HelperCircuit; verifier.rs: truncate_verifying_key, verify; mod.rs: Groth16CS",
            "core/osrng.rs: OsRng; circuit gadgets of the listed circuits",
            "bellman_ce 0.3.1 (generator, prover, FFT) with the multi-exponentiation replaced by the plain sum of products",
        ],
        outside: "other circuits and setup constants than listed; the group is its exponents modulo a small prime; knowledge soundness (a cryptographic assumption); the operating system's generator",
        cases: Box::new(cases),
    }]
}
