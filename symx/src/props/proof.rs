//! C16 native operators, C21 proof-system adapter, C22 verification equation, C23 key encoding
//! over a symbolic pairing engine, C24 contract-side encodings
use crate::driver::*;
use crate::eng::*;
use crate::engine::*;
use crate::field::S;
use crate::reccs::*;
use crate::tok::{self, T};
use bellman::groth16::VerifyingKey;
use bellman::{ConstraintSystem as BCS, LinearCombination, SynthesisError, Variable};
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::circuit::bitify::c_into_bits_le_strict;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::circuit::poseidon::c_poseidon;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::prover::{Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, verify, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fawkes_crypto::helpers::groth16::{G1PointData, G2PointData, Groth16CS};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use ff::Field;
use std::collections::BTreeMap;
use std::io::{self, Read, Write};

// ---- C16 ------------------------------------------------------------------------------------
fn ops<const P: u64>() {
    let (x, y) = (S::<P>::var("x"), S::<P>::var("y"));
    let (a, b) = (Num(x), Num(y));
    let eq = |l: &str, r: Result<N<P>, String>, e: S<P>| match r {
        Ok(v) => check(l, v.0.eq_fm(&e)),
        Err(m) => check(format!("{} panics: {}", l, m), Fm::F),
    };
    macro_rules! forms {
        ($n:expr, $op:tt, $as:tt, $e:expr) => {
            eq(concat!($n, " val val"), attempt(|| a $op b), $e);
            eq(concat!($n, " val ref"), attempt(|| a $op &b), $e);
            eq(concat!($n, " ref val"), attempt(|| &a $op b), $e);
            eq(concat!($n, " ref ref"), attempt(|| &a $op &b), $e);
            eq(concat!($n, " assign val"), attempt(|| { let mut t = a; t $as b; t }), $e);
            eq(concat!($n, " assign ref"), attempt(|| { let mut t = a; t $as &b; t }), $e);
        };
    }
    forms!("add", +, +=, x.a(&y));
    forms!("sub", -, -=, x.s(&y));
    forms!("mul", *, *=, x.m(&y));
    eq("neg", attempt(|| -a), x.neg());
    eq("neg ref", attempt(|| -&a), x.neg());
    eq("double", attempt(|| a.double()), x.sc(2));
    eq("square", attempt(|| a.square()), x.sq());
    eq("zero", attempt(|| Num::zero()), S::k(0));
    eq("one", attempt(|| Num::one()), S::k(1));
    eq("minusone", attempt(|| Num::minusone()), S::k(P - 1));
    eq("new", attempt(|| Num::new(x)), x);
    check("into_inner", a.into_inner().eq_fm(&x));
    match attempt(|| a == b) {
        Ok(q) => check("eq", Fm::iff(Fm::bool(q), x.eq_fm(&y))),
        Err(m) => check(format!("eq panics: {}", m), Fm::F),
    }
    match attempt(|| a != b) {
        Ok(q) => check("ne", Fm::iff(Fm::bool(!q), x.eq_fm(&y))),
        Err(m) => check(format!("ne panics: {}", m), Fm::F),
    }
    match attempt(|| a.is_zero()) {
        Ok(q) => check("is_zero", Fm::iff(Fm::bool(q), x.is_zero_fm())),
        Err(m) => check(format!("is_zero panics: {}", m), Fm::F),
    }
    match attempt(|| (a.is_odd(), a.is_even())) {
        Ok((o, e)) => check("parity", Fm::and(vec![Fm::iff(Fm::bool(o), x.odd_fm()), Fm::iff(Fm::bool(!e), x.odd_fm())])),
        Err(m) => check(format!("parity panics: {}", m), Fm::F),
    }
    cover("end", Fm::T);
}
fn div<const P: u64>(form: usize) {
    let (x, y) = (S::<P>::var("x"), S::<P>::var("y"));
    let (a, b) = (Num(x), Num(y));
    let r = attempt(|| match form {
        0 => a / b,
        1 => a / &b,
        2 => &a / b,
        3 => &a / &b,
        4 => {
            let mut t = a;
            t /= b;
            t
        }
        5 => {
            let mut t = a;
            t /= &b;
            t
        }
        _ => a * b.inverse(),
    });
    match r {
        Ok(q) => check("quotient times divisor is the dividend, the divisor is not zero", Fm::and(vec![q.0.m(&y).eq_fm(&x), y.is_zero_fm().not()])),
        Err(_) => {
            check("only division by zero is refused", y.is_zero_fm());
            cover("refused", Fm::T);
        }
    }
    cover("end", y.is_zero_fm().not());
}
fn root<const P: u64>() {
    let x = S::<P>::var("x");
    match attempt(|| Num(x).sqrt()) {
        Ok(Some(r)) => check("square root", r.0.sq().eq_fm(&x)),
        Ok(None) => check("no square root", x.square_fm().not()),
        Err(m) => check(format!("sqrt panics: {}", m), Fm::F),
    }
    cover("end", Fm::T);
}
fn c16(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    fn at<const P: u64>(v: &mut Vec<Case>) {
        v.push(case(format!("operators/GF({})", P), "all operands, all by-value, by-reference and assigning forms", ops::<P>));
        for f in 0..7 {
            let n = ["val val", "val ref", "ref val", "ref ref", "assign val", "assign ref", "inverse"][f];
            v.push(case(format!("division {}/GF({})", n, P), "all operands, zero included", move || div::<P>(f)));
        }
        v.push(case(format!("sqrt/GF({})", P), "all elements", root::<P>));
        v.push(case(format!("sqrt/GF({})/", P), "all elements, the other root convention", root::<P>).hi(true));
    }
    at::<13>(&mut v);
    at::<31>(&mut v);
    if t == Tier::Thorough {
        at::<61>(&mut v);
        at::<251>(&mut v);
    }
    v
}

// ---- C22 ------------------------------------------------------------------------------------
fn vars<const P: u64>(pre: &str, n: usize) -> Vec<S<P>> {
    (0..n).map(|i| S::var(&format!("{}{}", pre, i))).collect()
}
fn verification<const P: u64>(nic: usize, nin: usize) {
    reset();
    let g = vars::<P>("k", 7);
    let ic = vars::<P>("ic", nic);
    let x = vars::<P>("in", nin);
    let vk = TruncatedVerifyingKey::<Eng<P>> {
        alpha_g1: A1(g[0]),
        beta_g2: A2(g[1]),
        gamma_g2: A2(g[2]),
        delta_g2: A2(g[3]),
        ic: ic.iter().map(|e| A1(*e)).collect(),
    };
    let pr = Proof::<Eng<P>>(bellman::groth16::Proof { a: A1(g[4]), b: A2(g[5]), c: A1(g[6]) });
    let r = attempt(|| verify(&vk, &pr, &x));
    match r {
        Err(m) => check(format!("verify panics: {}", m), Fm::F),
        Ok(Err(_)) => check("an error only for a wrong number of inputs", Fm::bool(nic != nin + 1)),
        Ok(Ok(b)) => {
            check("no verdict for a wrong number of inputs", Fm::bool(nic == nin + 1));
            if nic == nin + 1 {
                let mut acc = ic[0];
                for i in 0..nin {
                    acc = acc.a(&x[i].m(&ic[i + 1]));
                }
                let lhs = g[4].m(&g[5]);
                let rhs = g[0].m(&g[1]).a(&acc.m(&g[2])).a(&g[6].m(&g[3]));
                check("accepts exactly the pairing equation", Fm::iff(Fm::bool(b), lhs.eq_fm(&rhs)));
                cover(if b { "accepted" } else { "rejected" }, Fm::T);
            }
        }
    }
    cover("end", Fm::T);
}
fn truncation<const P: u64>(n: usize) {
    reset();
    let g = vars::<P>("k", 7);
    let ic = vars::<P>("ic", n);
    let vk = VerifyingKey::<Eng<P>> {
        alpha_g1: A1(g[0]),
        beta_g1: A1(g[4]),
        beta_g2: A2(g[1]),
        gamma_g2: A2(g[2]),
        delta_g1: A1(g[5]),
        delta_g2: A2(g[3]),
        ic: ic.iter().map(|e| A1(*e)).collect(),
    };
    match attempt(|| truncate_verifying_key(&vk)) {
        Ok(t) => check("every element is kept", key_is(&t, &g, &ic)),
        Err(m) => check(format!("truncation panics: {}", m), Fm::F),
    }
    cover("end", Fm::T);
}
fn key_is<const P: u64>(t: &TruncatedVerifyingKey<Eng<P>>, g: &[S<P>], ic: &[S<P>]) -> Fm {
    let mut f = vec![
        t.alpha_g1.0.eq_fm(&g[0]),
        t.beta_g2.0.eq_fm(&g[1]),
        t.gamma_g2.0.eq_fm(&g[2]),
        t.delta_g2.0.eq_fm(&g[3]),
        Fm::bool(t.ic.len() == ic.len()),
    ];
    for (a, b) in t.ic.iter().zip(ic) {
        f.push(a.0.eq_fm(b));
    }
    Fm::and(f)
}
fn c22(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    fn at<const P: u64>(v: &mut Vec<Case>, m: usize) {
        for nic in 0..=m + 1 {
            for nin in 0..=m {
                v.push(case(
                    format!("verify ic={} inputs={}/order {}", nic, nin, P),
                    "all elements of the key and of the proof (the identity included), all inputs",
                    move || verification::<P>(nic, nin),
                ));
            }
            v.push(case(format!("truncate ic={}/order {}", nic, P), "all keys", move || truncation::<P>(nic)));
        }
    }
    at::<5>(&mut v, 3);
    at::<13>(&mut v, 6);
    for n in [8usize, 9, 15, 16, 17, 31, 32, 33, 64, 65, 129] {
        for nin in [0, 1, n - 2, n - 1, n] {
            v.push(case(
                format!("verify ic={} inputs={}/order 13", n, nin),
                "all elements of the key and of the proof (the identity included), all inputs",
                move || verification::<13>(n, nin),
            ));
        }
        v.push(case(format!("truncate ic={}/order 13", n), "all keys", move || truncation::<13>(n)));
    }
    if t == Tier::Thorough {
        at::<31>(&mut v, 6);
        at::<61>(&mut v, 3);
    }
    v
}

// ---- C23 (key encoding) ---------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
enum Io {
    Whole,
    Single,
    Forked,
    Fails,
    Once,
}
/// hands out the bytes in pieces; `Forked`: every call may be interrupted once or give one byte only
struct Rd {
    b: Vec<u8>,
    pos: usize,
    io: Io,
    calls: usize,
    intr: bool,
    fail_at: usize,
    failed: bool,
    idle: usize,
}
impl Read for Rd {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        let mut n = o.len().min(self.b.len() - self.pos);
        match self.io {
            Io::Whole => {}
            Io::Single => n = n.min(1),
            Io::Forked => {
                self.calls += 1;
                if self.calls <= self.fail_at {
                    match decide_value(S::<3>::var(&format!("io{}", self.calls)).0) {
                        0 => n = n.min(1),
                        1 if !self.intr => {
                            self.intr = true;
                            return Err(io::ErrorKind::Interrupted.into());
                        }
                        _ => {}
                    }
                }
            }
            Io::Fails | Io::Once => {
                if self.pos + n >= self.fail_at && self.pos < self.fail_at {
                    n = n.min(self.fail_at - self.pos);
                }
                if self.pos >= self.fail_at && !o.is_empty() && !(self.failed && self.io == Io::Once) {
                    self.failed = true;
                    self.idle += 1;
                    assert!(self.idle < 1000, "a failing reader is called without end");
                    return Err(io::Error::new(io::ErrorKind::Other, "device"));
                }
            }
        }
        if n == 0 {
            self.idle += 1;
            assert!(self.idle < 1000, "a reader at its end is called without end");
        }
        o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct Wr {
    b: Vec<u8>,
    single: bool,
    room: usize,
    /// the device fails once, then takes everything
    once: bool,
}
impl Write for Wr {
    fn write(&mut self, o: &[u8]) -> io::Result<usize> {
        let n = if self.single { o.len().min(1) } else { o.len() }.min(self.room - self.b.len());
        if n == 0 && !o.is_empty() {
            if self.once {
                self.room = 1 << 20;
            }
            return Err(io::Error::new(io::ErrorKind::Other, "device full"));
        }
        self.b.extend_from_slice(&o[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
const L1: usize = C1::<3>::LEN;
const L2: usize = C2::<3>::LEN;
const HEAD: usize = L1 + 3 * L2;
/// `len` arbitrary bytes: every piece decodes to an arbitrary verdict and element
fn reading<const P: u64>(len: usize, io: Io, fail_at: usize) {
    reset();
    let b: Vec<u8> = (0..len).map(|i| i as u8 + 1).collect();
    let mut rd = Rd { b: b.clone(), pos: 0, io, calls: 0, intr: false, fail_at, failed: false, idle: 0 };
    let r = attempt(|| TruncatedVerifyingKey::<Eng<P>>::read(&mut rd).map_err(|e| e.to_string()));
    let r = match r {
        Err(m) => {
            check(format!("read panics: {}", m), Fm::F);
            return;
        }
        Ok(r) => r,
    };
    let mut ok = vec![];
    let mut el = vec![];
    let whole = len >= HEAD && (len - HEAD) % L1 == 0;
    if whole {
        let mut at = 0;
        let mut k = 0;
        while at < len {
            let (kind, l) = if k == 0 || k > 3 { (C1::<P>::KIND, L1) } else { (C2::<P>::KIND, L2) };
            let (v, e) = meaning::<P>(kind, &b[at..at + l]);
            ok.push(Fm::and(vec![v.is_zero_fm().not(), e.is_zero_fm().not()]));
            el.push(e);
            at += l;
            k += 1;
        }
    }
    let fails = (io == Io::Fails || io == Io::Once) && fail_at <= len;
    let good = Fm::and(vec![Fm::bool(whole && !fails), Fm::and(ok)]);
    match r {
        Ok(k) => {
            check("accepted only if complete, valid and without the identity", good.clone());
            if whole && !fails {
                check("every element is the one that was written", key_is(&k, &[el[0], el[1], el[2], el[3]], &el[4..]));
                cover("accepted", Fm::T);
            }
        }
        Err(_) => check("a complete key of valid elements is accepted", good.not()),
    }
    cover("end", Fm::T);
}
fn writing<const P: u64>(n: usize, single: bool, room: Option<usize>, once: bool) {
    reset();
    let g = vars::<P>("k", 4);
    let ic = vars::<P>("ic", n);
    let vk = TruncatedVerifyingKey::<Eng<P>> {
        alpha_g1: A1(g[0]),
        beta_g2: A2(g[1]),
        gamma_g2: A2(g[2]),
        delta_g2: A2(g[3]),
        ic: ic.iter().map(|e| A1(*e)).collect(),
    };
    let total = HEAD + n * L1;
    let mut w = Wr { b: vec![], single, room: room.unwrap_or(1 << 20), once };
    match attempt(|| vk.write(&mut w).is_ok()) {
        Err(m) => {
            check(format!("write panics: {}", m), Fm::F);
            return;
        }
        Ok(false) => {
            check("writing fails only if the device does", Fm::bool(room.is_some()));
            return;
        }
        Ok(true) => check("a failing device is reported", Fm::bool(room.map_or(true, |r| r >= total))),
    }
    // layout: alpha, beta, gamma, delta, then the list
    check("length", Fm::bool(w.b.len() == total));
    if w.b.len() != total {
        return;
    }
    let mut at = 0;
    for k in 0..4 + n {
        let (kind, l) = if k == 0 || k > 3 { (C1::<P>::KIND, L1) } else { (C2::<P>::KIND, L2) };
        let (v, e) = meaning::<P>(kind, &w.b[at..at + l]);
        let want = if k < 4 { g[k] } else { ic[k - 4] };
        check(format!("element {} is written in its place", k), Fm::and(vec![v.is_zero_fm().not(), e.eq_fm(&want)]));
        at += l;
    }
    let inf = Fm::or(g.iter().chain(&ic).map(|e| e.is_zero_fm()).collect());
    match attempt(|| TruncatedVerifyingKey::<Eng<P>>::read(&w.b[..]).map_err(|_| ())) {
        Err(m) => check(format!("read panics: {}", m), Fm::F),
        Ok(Ok(k)) => check("reading back gives the key", Fm::and(vec![inf.not(), key_is(&k, &g, &ic)])),
        Ok(Err(_)) => check("reading back fails only for the identity", inf),
    }
    cover("end", Fm::T);
}
fn c23(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let q = t == Tier::Quick;
    let max = if q { 2 } else { 4 };
    for len in 0..=HEAD + max * L1 + 1 {
        v.push(case(format!("read {} bytes", len), "every byte string of this length, every verdict of the group decoding", move || reading::<5>(len, Io::Whole, 0)));
    }
    for len in [HEAD - 1, HEAD, HEAD + 1, HEAD + L1 - 1, HEAD + L1, HEAD + L1 + 1, HEAD + 2 * L1] {
        v.push(case(format!("read {} bytes one by one", len), "reader that returns one byte per call", move || reading::<5>(len, Io::Single, 0)));
    }
    let calls = if q { 6 } else { 10 };
    for len in [HEAD, HEAD + L1, HEAD + L1 + 2] {
        v.push(case(format!("read {} bytes in pieces", len), format!("reader whose first {} calls return one byte, everything, or are interrupted (at most once)", calls), move || reading::<5>(len, Io::Forked, calls)));
    }
    for f in 0..=HEAD + 2 * L1 {
        v.push(case(format!("read from a device failing at {}", f), "the device fails after that many bytes", move || reading::<5>(HEAD + 2 * L1, Io::Fails, f)));
        v.push(case(format!("read from a device failing once at {}", f), "the device fails once after that many bytes", move || reading::<5>(HEAD + 2 * L1, Io::Once, f)));
    }
    for n in 0..=(if q { 3 } else { 6 }) {
        v.push(case(format!("write ic={}", n), "all keys", move || writing::<5>(n, false, None, false)));
        v.push(case(format!("write ic={} byte by byte", n), "all keys, a writer that takes one byte per call", move || writing::<5>(n, true, None, false)));
    }
    for r in 0..=HEAD + L1 {
        v.push(case(format!("write to a device with {} bytes", r), "the device is full after that many bytes", move || writing::<5>(1, false, Some(r), false)));
        v.push(case(format!("write to a device failing once at {}", r), "the device refuses one call after that many bytes", move || writing::<5>(1, false, Some(r), true)));
    }
    v
}

// ---- C24 (keys) -----------------------------------------------------------------------------
type Tv<const P: u64> = T<P>;
fn j<const P: u64>(t: &Tv<P>) -> serde_json::Value {
    serde_json::Value::String(t.word().to_string())
}
fn g1v<const P: u64>(t: &[Tv<P>]) -> serde_json::Value {
    serde_json::Value::Array(vec![j(&t[0]), j(&t[1])])
}
/// ((x.c1, x.c0), (y.c1, y.c0))
fn g2v<const P: u64>(t: &[Tv<P>]) -> serde_json::Value {
    serde_json::json!([[j(&t[0]), j(&t[1])], [j(&t[2]), j(&t[3])]])
}
fn tvars<const P: u64>(n: usize) -> Vec<T<P>> {
    (0..n).map(|i| T::var(&format!("c{}", i))).collect()
}
const G2ORD: [usize; 4] = [1, 0, 3, 2];
fn g2w<const P: u64>(t: &[Tv<P>]) -> Vec<u64> {
    G2ORD.iter().map(|i| t[*i].word()).collect()
}
fn g1w<const P: u64>(t: &[Tv<P>]) -> Vec<u64> {
    vec![t[0].word(), t[1].word()]
}
fn round<D: BorshSerialize + BorshDeserialize + serde::Serialize + serde::de::DeserializeOwned>(l: &str, v: serde_json::Value, want: Vec<u8>) {
    let d: D = match attempt(|| serde_json::from_value(v.clone())) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => return check(format!("{}: textual form refused: {}", l, e), Fm::F),
        Err(m) => return check(format!("{}: reading the textual form panics: {}", l, m), Fm::F),
    };
    let b = match attempt(|| d.try_to_vec()) {
        Ok(Ok(b)) => b,
        _ => return check(format!("{}: serialization fails", l), Fm::F),
    };
    check(format!("{}: bytes are the coordinates in their order", l), Fm::bool(b == want));
    let mut s = &b[..];
    match attempt(|| <D as BorshDeserialize>::deserialize(&mut s)) {
        Ok(Ok(e)) => {
            check(format!("{}: everything is consumed", l), Fm::bool(s.is_empty()));
            match attempt(|| serde_json::to_value(&e)) {
                Ok(Ok(w)) => check(format!("{}: reading back is the identity", l), Fm::bool(w == v)),
                _ => check(format!("{}: textual serialization fails", l), Fm::F),
            }
        }
        Ok(Err(e)) => check(format!("{}: reading back fails: {}", l, e), Fm::F),
        Err(m) => check(format!("{}: reading back panics: {}", l, m), Fm::F),
    }
}
fn le(w: &[u64]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn near_points<const P: u64>() {
    tok::reset();
    let t = tvars::<P>(8);
    round::<G1PointData<T<P>>>("g1", g1v(&t), le(&g1w(&t)));
    round::<G2PointData<T<P>>>("g2", g2v(&t), le(&g2w(&t)));
    let v = serde_json::json!({"a": g1v(&t[0..]), "b": g2v(&t[2..]), "c": g1v(&t[6..])});
    let mut w = g1w(&t[0..]);
    w.extend(g2w(&t[2..]));
    w.extend(g1w(&t[6..]));
    round::<ProofData<T<P>>>("proof", v, le(&w));
    cover("end", Fm::T);
}
fn near_key<const P: u64>(n: usize) {
    tok::reset();
    let t = tvars::<P>(14 + 2 * n);
    let ic: Vec<_> = (0..n).map(|i| g1v(&t[14 + 2 * i..])).collect();
    let v = serde_json::json!({"alpha_g1": g1v(&t[0..]), "beta_g2": g2v(&t[2..]), "gamma_g2": g2v(&t[6..]), "delta_g2": g2v(&t[10..]), "ic": ic});
    let mut w = g1w(&t[0..]);
    for k in 0..3 {
        w.extend(g2w(&t[2 + 4 * k..]));
    }
    let mut b = le(&w);
    b.extend((n as u32).to_le_bytes());
    for i in 0..n {
        b.extend(le(&g1w(&t[14 + 2 * i..])));
    }
    round::<TruncatedVerifyingKeyData<T<P>>>("key", v, b);
    cover("end", Fm::T);
}
/// arbitrary bytes: accepted exactly if long enough and every word is below the order
fn near_read<const P: u64, D: BorshDeserialize + BorshSerialize>(len: usize, head: usize, ic: Option<u32>) {
    tok::reset();
    let mut b: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(3) ^ 0x50).collect();
    for i in (7..len.min(8 * head)).step_by(8) {
        b[i] = 0x50 ^ (i as u8 & 7);
    }
    let mut words: Vec<usize> = (0..head).map(|i| 8 * i).collect();
    let mut need = 8 * head;
    if let Some(n) = ic {
        let at = need;
        for (i, x) in n.to_le_bytes().iter().enumerate() {
            if at + i < len {
                b[at + i] = *x;
            }
        }
        need = at + 4 + 16 * n as usize;
        words.extend((0..2 * n as usize).map(|i| at + 4 + 8 * i));
    }
    let good = if len >= need {
        Fm::and(
            words
                .iter()
                .map(|o| {
                    let mut w = [0u8; 8];
                    w.copy_from_slice(&b[*o..o + 8]);
                    tok::meaning::<P>(u64::from_le_bytes(w)).0.is_zero_fm().not()
                })
                .collect(),
        )
    } else {
        Fm::F
    };
    let mut s = &b[..];
    match attempt(|| D::deserialize(&mut s)) {
        Err(m) => check(format!("reading panics: {}", m), Fm::F),
        Ok(Err(_)) => check("complete canonical data is accepted", good.not()),
        Ok(Ok(d)) => {
            check("only complete canonical data is accepted", good);
            if len >= need {
                check("exactly the encoding is consumed", Fm::bool(s.len() == len - need));
                match attempt(|| d.try_to_vec()) {
                    Ok(Ok(o)) => check("writing gives the same bytes", Fm::bool(o[..] == b[..need])),
                    _ => check("serialization fails", Fm::F),
                }
            }
            cover("accepted", Fm::T);
        }
    }
    cover("end", Fm::T);
}
fn c24(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    v.push(case("points and proofs", "all coordinates (opaque 8-byte words)", near_points::<13>));
    for n in 0..=(if t == Tier::Quick { 4 } else { 12 }) {
        v.push(case(format!("key ic={}", n), "all coordinates (opaque 8-byte words)", move || near_key::<13>(n)));
    }
    for l in [0usize, 8, 15, 16, 17, 24] {
        v.push(case(format!("read g1 {} bytes", l), "all words, canonical or not", move || near_read::<13, G1PointData<T<13>>>(l, 2, None)));
    }
    for l in [16usize, 31, 32, 40] {
        v.push(case(format!("read g2 {} bytes", l), "all words, canonical or not", move || near_read::<13, G2PointData<T<13>>>(l, 4, None)));
    }
    for l in [48usize, 63, 64, 72] {
        v.push(case(format!("read proof {} bytes", l), "all words, canonical or not", move || near_read::<13, ProofData<T<13>>>(l, 8, None)));
    }
    for n in 0..=(if t == Tier::Quick { 2 } else { 4 }) {
        let full = 14 * 8 + 4 + 16 * n;
        let lens: Vec<usize> = if t == Tier::Quick { vec![0, 16, 111, 112, 115, full - 1, full, full + 3] } else { (0..=full + 9).collect() };
        let mut seen = vec![];
        for l in lens {
            if !seen.contains(&l) {
                seen.push(l);
                v.push(case(format!("read key ic={} {} bytes", n, l), "all words, canonical or not", move || near_read::<13, TruncatedVerifyingKeyData<T<13>>>(l, 14, Some(n as u32))));
            }
        }
    }
    // a list length far beyond the input
    for n in [3u32, 1000, 0x4000_0000, u32::MAX] {
        v.push(case(format!("read key claiming {} points", n), "input ends after two points", move || {
            tok::reset();
            let mut b: Vec<u8> = vec![0; 14 * 8];
            b.extend(n.to_le_bytes());
            b.extend(vec![0u8; 32]);
            let mut s = &b[..];
            match attempt(|| TruncatedVerifyingKeyData::<T<13>>::deserialize(&mut s).is_ok()) {
                Ok(r) => check("refused", Fm::bool(!r)),
                Err(m) => check(format!("reading panics: {}", m), Fm::F),
            }
            cover("end", Fm::T);
        }));
    }
    v
}

// ---- C21 ------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum Ev<const P: u64> {
    /// asked value: None = not asked, Some(None) = reported missing
    Alloc { input: bool, var: (bool, usize), val: Option<Option<S<P>>> },
    Con([Vec<((bool, usize), S<P>)>; 3]),
}
#[derive(Default)]
struct RecB<const P: u64> {
    ev: Vec<Ev<P>>,
    ask: bool,
    n: usize,
}
impl<const P: u64> RecB<P> {
    fn new_alloc<F: FnOnce() -> Result<S<P>, SynthesisError>>(&mut self, input: bool, f: F) -> Result<Variable, SynthesisError> {
        self.n += 1;
        // an arbitrary numbering: the caller has to use the variable it is given
        let id = 7 * self.n + 3;
        let val = if self.ask {
            match f() {
                Ok(v) => Some(Some(v)),
                Err(SynthesisError::AssignmentMissing) => Some(None),
                Err(e) => panic!("unexpected synthesis error {:?}", e),
            }
        } else {
            None
        };
        self.ev.push(Ev::Alloc { input, var: (input, id), val });
        if val == Some(None) {
            return Err(SynthesisError::AssignmentMissing);
        }
        Ok(Variable::new_unchecked(if input { bellman::Index::Input(id) } else { bellman::Index::Aux(id) }))
    }
}
fn lcv<const P: u64>(l: &LinearCombination<Eng<P>>) -> Vec<((bool, usize), S<P>)> {
    l.as_ref()
        .iter()
        .map(|(v, c)| {
            (
                match v.get_unchecked() {
                    bellman::Index::Input(i) => (true, i),
                    bellman::Index::Aux(i) => (false, i),
                },
                *c,
            )
        })
        .collect()
}
impl<const P: u64> BCS<Eng<P>> for RecB<P> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S<P>, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.new_alloc(false, f)
    }
    fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S<P>, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.new_alloc(true, f)
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<Eng<P>>) -> LinearCombination<Eng<P>>,
        LB: FnOnce(LinearCombination<Eng<P>>) -> LinearCombination<Eng<P>>,
        LC: FnOnce(LinearCombination<Eng<P>>) -> LinearCombination<Eng<P>>,
    {
        let z = LinearCombination::zero;
        self.ev.push(Ev::Con([lcv(&a(z())), lcv(&b(z())), lcv(&c(z()))]));
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
/// the wire a library index refers to
fn iv(i: Index) -> (bool, usize) {
    match i {
        Index::Input(i) => (true, i),
        Index::Aux(i) => (false, i),
    }
}
/// the same linear form (order and repetition of terms do not matter)
fn same_form<const P: u64>(got: &[((bool, usize), S<P>)], want: &[((bool, usize), S<P>)]) -> Fm {
    let mut m: BTreeMap<(bool, usize), (S<P>, S<P>)> = BTreeMap::new();
    for (k, c) in got {
        let e = m.entry(*k).or_insert((S::k(0), S::k(0)));
        e.0 = e.0.a(c);
    }
    for (k, c) in want {
        let e = m.entry(*k).or_insert((S::k(0), S::k(0)));
        e.1 = e.1.a(c);
    }
    Fm::and(m.values().map(|(a, b)| a.eq_fm(b)).collect())
}
type G<'a, const P: u64> = Groth16CS<Eng<P>, &'a mut RecB<P>>;

/// every sequence of `n` operations; every operand shape up to `terms` terms
fn script<const P: u64>(n: usize, terms: usize, first: u64, ask: bool) {
    reset();
    let mut rec = RecB::<P> { ask, ..Default::default() };
    let mut want: Vec<Ev<P>> = vec![];
    let mut stopped = false;
    {
        let cs: G<P> = Groth16CS::new(&mut rec);
        let mut wires: Vec<Index> = vec![Index::Input(0)];
        let mut count = 0;
        for k in 0..n {
            let op = if terms > 1 { [0, 1, first, 2][k] } else { decide_value(S::<3>::var(&format!("op{}", k)).0) };
            if op < 2 {
                let input = op == 1;
                let known = S::<3>::var(&format!("known{}", k)).is_zero();
                let v = S::<P>::var(&format!("v{}", k));
                let val = if known { Some(Num(v)) } else { None };
                let r = attempt(|| if input { cs.alloc_input(val) } else { cs.alloc(val) });
                count += 1;
                let id = (input, 7 * count + 3);
                want.push(Ev::Alloc { input, var: id, val: if ask { Some(if known { Some(v) } else { None }) } else { None } });
                match r {
                    Ok(i) => {
                        check("the variable of the proof system is returned", Fm::bool(iv(i) == id));
                        check("a missing value is reported when asked for", Fm::bool(known || !ask));
                        wires.push(i);
                    }
                    Err(m) => {
                        check(format!("allocation panics: {}", m), Fm::bool(!known && ask));
                        stopped = true;
                        break;
                    }
                }
            } else {
                let mut mk = |l: &str| {
                    let nt = if terms == 1 { 1 } else { decide_value(S::<3>::var(&format!("n{}{}", l, k)).0) as usize };
                    let mut lc = vec![];
                    let mut w = vec![];
                    for t in 0..nt.min(terms) {
                        // terms on different wires, wherever in the list
                        let at = (t * 2 + k + l.len()) % wires.len();
                        let c = S::<P>::var(&format!("{}{}c{}", l, k, t));
                        lc.push((wires[at], Num(c)));
                        w.push((iv(wires[at]), c));
                    }
                    (CNum { value: None, lc: lc.into_iter().collect(), cs: &cs }, w)
                };
                let (a, wa) = mk("a");
                let (b, wb) = mk("bb");
                let (c, wc) = mk("ccc");
                if let Err(m) = attempt(|| cs.enforce(&a, &b, &c)) {
                    check(format!("enforce panics: {}", m), Fm::F);
                }
                want.push(Ev::Con([wa, wb, wc]));
            }
        }
    }
    compare(&rec.ev, &want);
    cover(if stopped { "missing value" } else { "end" }, Fm::T);
}
fn compare<const P: u64>(got: &[Ev<P>], want: &[Ev<P>]) {
    check("every operation reaches the proof system exactly once", Fm::bool(got.len() == want.len()));
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        match (g, w) {
            (Ev::Alloc { input: a, val: x, .. }, Ev::Alloc { input: b, val: y, .. }) => {
                check(format!("operation {}: kind of variable", i), Fm::bool(a == b));
                let f = match (x, y) {
                    (Some(Some(x)), Some(Some(y))) => x.eq_fm(y),
                    (Some(None), Some(None)) | (None, _) => Fm::T,
                    _ => Fm::F,
                };
                check(format!("operation {}: value", i), f);
            }
            (Ev::Con(x), Ev::Con(y)) => {
                for k in 0..3 {
                    check(format!("operation {}: constraint operand {}", i, k), same_form(&x[k], &y[k]));
                }
            }
            _ => check(format!("operation {}: kind", i), Fm::F),
        }
    }
}
/// a real gadget: what reaches the proof system is what the gadget emits into a recording system
fn through<const P: u64, Fa, Fb>(ask: bool, a: Fa, b: Fb)
where
    Fa: Fn(&RecCS<P>),
    Fb: Fn(&G<P>),
{
    reset();
    let cs = RecCS::<P>::new();
    a(&cs);
    let mut rec = RecB::<P> { ask, ..Default::default() };
    {
        let g: G<P> = Groth16CS::new(&mut rec);
        if let Err(m) = attempt(|| b(&g)) {
            check(format!("synthesis panics: {}", m), Fm::F);
            return;
        }
    }
    // replay the recorded system against the event log
    let inner = cs.0.borrow();
    let (mut na, mut ni, mut nc) = (0, 0, 0);
    let mut map: BTreeMap<(bool, usize), (bool, usize)> = BTreeMap::new();
    map.insert((true, 0), (true, 0));
    for e in &rec.ev {
        match e {
            Ev::Alloc { input, var, val } => {
                let (k, w) = if *input {
                    ni += 1;
                    ((true, ni), inner.inputs.get(ni - 1).cloned().flatten())
                } else {
                    na += 1;
                    ((false, na - 1), inner.aux.get(na - 1).cloned().flatten())
                };
                map.insert(k, *var);
                if ask {
                    check(
                        "value of a wire",
                        match (val, w) {
                            (Some(Some(x)), Some(y)) => x.eq_fm(&y.0),
                            _ => Fm::F,
                        },
                    );
                }
            }
            Ev::Con(l) => {
                if let Some(w) = inner.cons.get(nc) {
                    for k in 0..3 {
                        let t: Vec<_> = w[k].iter().map(|(i, c)| (map.get(&iv(*i)).cloned().unwrap_or((false, usize::MAX)), c.0)).collect();
                        check("constraint of a gadget", same_form(&l[k], &t));
                    }
                }
                nc += 1;
            }
        }
    }
    check("number of wires and constraints", Fm::bool(na == inner.aux.len() && ni == inner.inputs.len() && nc == inner.cons.len()));
    cover("end", Fm::T);
}
fn g_arith<'a, const P: u64, CS: ConstraintSystem<F = S<P>>>(cs: &'a CS, v: bool) {
    let (x, y) = (Num(S::<P>::var("x")), Num(S::<P>::var("y")));
    assume(y.0.is_zero_fm().not());
    let a: CNum<'a, CS> = CNum::alloc(cs, if v { Some(&x) } else { None });
    let b: CNum<'a, CS> = CNum::alloc(cs, if v { Some(&y) } else { None });
    a.inputize();
    let c = (&a * &b + Num(S::<P>::k(3))) / &b - &a;
    c.inputize();
    let z = (&c - &a).is_zero();
    z.inputize();
}
fn g_bits<'a, const P: u64, CS: ConstraintSystem<F = S<P>>>(cs: &'a CS, v: bool) {
    let x = Num(S::<P>::var("x"));
    let a: CNum<'a, CS> = CNum::alloc(cs, if v { Some(&x) } else { None });
    for b in c_into_bits_le_strict(&a) {
        b.inputize();
    }
}
fn g_pos<'a, const P: u64, CS: ConstraintSystem<F = S<P>>>(cs: &'a CS, v: bool) {
    let x = [Num(S::<P>::var("x")), Num(S::<P>::var("y"))];
    let a: Vec<CNum<'a, CS>> = x.iter().map(|x| CNum::alloc(cs, if v { Some(x) } else { None })).collect();
    let k = |n: u64, i: usize| Num(S::<P>::k((n * (i as u64 + 2) * (i as u64 + 2) + 1) % P));
    let (t, f, p) = (3usize, 2usize, 1usize);
    let prm = PoseidonParams {
        c: (0..f + p).map(|i| k(3, i)).collect(),
        m: (0..t).map(|i| (0..t).map(|j| k(5, t * i + j)).collect()).collect(),
        t,
        f,
        p,
    };
    c_poseidon(&a, &prm).inputize();
}
fn c21(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let q = t == Tier::Quick;
    for ask in [true, false] {
        let m = if ask { "proving" } else { "key generation" };
        v.push(case(format!("scripts of {} operations/{}", if q { 4 } else { 5 }, m), "every sequence of allocations, inputs and one-term constraints; all values (also missing) and coefficients", move || script::<13>(if q { 4 } else { 5 }, 1, 0, ask)));
        for op in 0..2 {
            v.push(case(format!("constraint shapes {}/{}", op, m), "a constraint after three allocations, every operand with 0 to 2 terms, all coefficients", move || script::<13>(4, 2, op, ask)));
        }
        if !q {
            v.push(case(format!("two constraints/{}", m), "two constraints after two allocations, every operand with 0 to 2 terms, all coefficients", move || script::<13>(4, 2, 2, ask)));
        }
        fn th<const P: u64>(v: &mut Vec<Case>, ask: bool, m: &str) {
            v.push(case(format!("arithmetic circuit/GF({})/{}", P, m), "all values", move || through::<P, _, _>(ask, |c| g_arith(c, ask), |c| g_arith(c, ask))));
            v.push(case(format!("bit decomposition/GF({})/{}", P, m), "all values", move || through::<P, _, _>(ask, |c| g_bits(c, ask), |c| g_bits(c, ask))));
            v.push(case(format!("poseidon/GF({})/{}", P, m), "all inputs", move || through::<P, _, _>(ask, |c| g_pos(c, ask), |c| g_pos(c, ask))));
        }
        th::<13>(&mut v, ask, m);
        if !q {
            th::<31>(&mut v, ask, m);
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            functions: &["Num: Add Sub Mul Div Neg (all forms), AddAssign SubAssign MulAssign DivAssign, double, square, inverse, sqrt, eq, is_zero, is_odd, is_even, zero, one, minusone"],
            outside: "larger fields; encodings are decided by the bounded model checker part of this check",
            cases: Box::new(c16),
        },
        Prop {
            id: "C21",
            functions: &["Groth16CS::{new, alloc, alloc_input, enforce}", "Assignment::grab", "CNum operators, c_into_bits_le_strict, c_poseidon (as producers)"],
            outside: "longer scripts; operands with more than two terms outside the gadget cases; bellman itself (generate_keys, prove)",
            cases: Box::new(c21),
        },
        Prop {
            id: "C22",
            functions: &["verify", "truncate_verifying_key"],
            outside: "group orders and input counts beyond the listed ones; the pairing of the shipped curves is taken to be bilinear and non-degenerate",
            cases: Box::new(c22),
        },
        Prop {
            id: "C23",
            functions: &["TruncatedVerifyingKey::{read, write}"],
            outside: "keys with more points than listed; the point encodings of the pairing crate itself (uninterpreted)",
            cases: Box::new(c23),
        },
        Prop {
            id: "C24",
            functions: &["Borsh impls of G1PointData, G2PointData, ProofData, TruncatedVerifyingKeyData", "Num Borsh and serde impls (as components)"],
            outside: "keys with more points than listed",
            cases: Box::new(c24),
        },
    ]
}
