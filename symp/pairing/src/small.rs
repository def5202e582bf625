//! Small base fields under the shipped pairing curves.
//!
//! An element of `Fq` is either a constant of the real field (Montgomery limbs, exact real-field
//! arithmetic) or a node of the symbolic engine over GF(p'), p' chosen per case with `configure`.
//! A constant that meets a node is read as the fraction n/d of small integers it is (3, 4, 27/82,
//! -3/82, ...) and taken modulo p'; a constant that is no such fraction gets a value different
//! from every curve coefficient.  A node inside an `FqRepr` is a tagged word that survives being
//! written to and read from bytes.  Scalars k = q r + s (|s| small, r the real group order) act as
//! q r' + s, r' the order of the prime-order subgroup of the small curve.
use num::bigint::{BigInt, BigUint};
use num::{One, Signed, Zero};
use std::cell::Cell;
use symcore::engine::{self, Cond, Id};

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub p: u64,
    pub r1: u64,
    pub r2: u64,
}
thread_local!(static CFG: Cell<Cfg> = Cell::new(Cfg { p: 7, r1: 13, r2: 13 }));

pub fn configure(c: Cfg) {
    CFG.with(|x| x.set(c))
}
pub fn p() -> u64 {
    CFG.with(|x| x.get().p)
}

pub const TAG_RAW: u64 = 0x5359_4d52_4157_0001;
pub const TAG_CAN: u64 = 0x5359_4d43_414e_0002;

pub fn big(l: &[u64]) -> BigUint {
    let mut r = BigUint::zero();
    for x in l.iter().rev() {
        r = (r << 64) + BigUint::from(*x);
    }
    r
}
pub fn limbs(b: &BigUint, out: &mut [u64]) {
    let m = BigUint::from(u64::max_value());
    let mut b = b.clone();
    for x in out.iter_mut() {
        let l = &b & &m;
        let d = l.to_bytes_le();
        let mut w = [0u8; 8];
        w[..d.len()].copy_from_slice(&d);
        *x = u64::from_le_bytes(w);
        b = b >> 64;
    }
}
pub fn inv_big(a: &BigUint, p: &BigUint) -> BigUint {
    a.modpow(&(p - 2u32), p)
}

/// the residue modulo p' of a constant of the real field
pub fn reduce(v: &BigUint, real_p: &BigUint) -> u64 {
    let q = p();
    let lim = BigInt::from(1u64 << 32);
    // half-extended Euclid: v = n/d
    let (mut r0, mut r1) = (BigInt::from(real_p.clone()), BigInt::from(v.clone()));
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while r1 >= lim {
        let k = &r0 / &r1;
        let r2 = &r0 - &k * &r1;
        let t2 = &t0 - &k * &t1;
        r0 = r1;
        r1 = r2;
        t0 = t1;
        t1 = t2;
    }
    let qq = BigInt::from(q);
    let res = |x: &BigInt| -> u64 {
        let y = ((x % &qq) + &qq) % &qq;
        y.to_string().parse().unwrap()
    };
    if t1.abs() < lim {
        let d = res(&t1);
        if d != 0 {
            return res(&r1) * engine::inv_mod(d, q) % q;
        }
    }
    // not a small fraction: any value that is not a coefficient of the curves
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in v.to_bytes_le() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    let mut x = h % q;
    let c = if 82 % q == 0 { 1 } else { engine::inv_mod(82 % q, q) };
    while [0, 3 % q, 4 % q, 27 * c % q, (q - 3 * c % q) % q].contains(&x) && q > 5 {
        x = (x + 1) % q;
    }
    x
}

pub fn map_scalar<I: Iterator<Item = bool>>(curve: &str, group: &str, bits: I) -> std::vec::IntoIter<bool> {
    let mut k = BigUint::zero();
    for b in bits {
        k = (k << 1) + BigUint::from(b as u32);
    }
    let r: BigUint = match curve {
        "bn256" => "21888242871839275222246405745257275088548364400416034343698204186575808495617",
        _ => "52435875175126190479447740508185965837690552500527637822603658699938581184513",
    }
    .parse()
    .unwrap();
    let cfg = CFG.with(|x| x.get());
    let rs = BigInt::from(if group == "G1" { cfg.r1 } else { cfg.r2 });
    let q = (&k + (&r >> 1)) / &r;
    let s = BigInt::from(k) - BigInt::from(q.clone()) * BigInt::from(r);
    // small remainders act as they are, others by their residue
    let s = if s.abs() < BigInt::from(1u64 << 32) { s } else { ((&s % &rs) + &rs) % &rs };
    let mut k = BigInt::from(q % BigUint::from(1u64 << 16)) * &rs + s;
    while k.is_negative() {
        k += &rs;
    }
    let mut out = vec![];
    let k = k.to_biguint().unwrap();
    let mut m = k;
    while !m.is_zero() {
        out.push((&m % 2u32).is_one());
        m = m >> 1;
    }
    out.reverse();
    out.into_iter()
}

pub fn konst(v: u64) -> Id {
    engine::with(|c| c.konst(v % p(), p()))
}

/// square root in GF(p')[u]/(u^2+1), by value
pub fn sqrt2(a: Id, b: Id) -> Option<(Id, Id)> {
    let q = p();
    let (a, b) = (engine::decide_value(a), engine::decide_value(b));
    for x in 0..q {
        for y in 0..q {
            if (x * x + q * q - y * y) % q == a && 2 * x * y % q == b {
                return Some((konst(x), konst(y)));
            }
        }
    }
    None
}
pub fn zero(n: Id) -> bool {
    engine::decide(Cond::Zero(n))
}

#[macro_export]
macro_rules! sym_field {
    ($n:expr, $bits:expr, $s:expr) => {
        use num::bigint::BigUint;
        use $crate::small;
        use symcore::engine::{self, Id};

        #[derive(Copy, Clone, Default)]
        pub struct FqRepr(pub [u64; $n]);

        /// Montgomery limbs of a constant, or a tagged node
        pub struct Fq(pub(crate) FqRepr);

        fn real_p() -> BigUint {
            P.parse().unwrap()
        }

        impl FqRepr {
            fn tag(&self) -> Option<(u64, Id)> {
                if (self.0[1] == small::TAG_RAW || self.0[1] == small::TAG_CAN) && self.0[2..].iter().all(|x| *x == 0) {
                    Some((self.0[1], self.0[0] as Id))
                } else {
                    None
                }
            }
            fn tagged(t: u64, n: Id) -> Self {
                let mut r = [0u64; $n];
                r[0] = n as u64;
                r[1] = t;
                FqRepr(r)
            }
            fn of(b: &BigUint) -> Self {
                let mut r = [0u64; $n];
                small::limbs(b, &mut r);
                FqRepr(r)
            }
            /// the integer; a tagged word is pinned to a value
            fn int(&self) -> BigUint {
                match self.tag() {
                    None => small::big(&self.0),
                    Some((t, n)) => {
                        let v = engine::decide_value(n);
                        if t == small::TAG_CAN {
                            BigUint::from(v)
                        } else {
                            mont(&BigUint::from(v))
                        }
                    }
                }
            }
            fn pin(&mut self) {
                *self = FqRepr::of(&self.int());
            }
        }
        fn mont(v: &BigUint) -> BigUint {
            (v << (64 * $n)) % real_p()
        }
        fn unmont(v: &BigUint) -> BigUint {
            thread_local!(static PR: (BigUint, BigUint) = {
                let p = real_p();
                let ri = small::inv_big(&((BigUint::from(1u32) << (64 * $n)) % &p), &p);
                (p, ri)
            });
            PR.with(|(p, ri)| v * ri % p)
        }

        impl Fq {
            /// the constant's value in the real field
            fn constant(&self) -> Option<BigUint> {
                match (self.0).tag() {
                    None => Some(unmont(&small::big(&(self.0).0))),
                    Some(_) => None,
                }
            }
            fn k(v: &BigUint) -> Fq {
                Fq(FqRepr::of(&mont(&(v % real_p()))))
            }
            /// the element as a node over GF(p')
            pub fn small(&self) -> Id {
                match (self.0).tag() {
                    Some((_, n)) => n,
                    None => {
                        let v = small::big(&(self.0).0);
                        thread_local!(static CACHE: std::cell::RefCell<std::collections::HashMap<(BigUint, u64), u64>> = Default::default());
                        let r = CACHE.with(|c| *c.borrow_mut().entry((v.clone(), small::p())).or_insert_with(|| small::reduce(&unmont(&v), &real_p())));
                        small::konst(r)
                    }
                }
            }
            pub fn from_small(n: Id) -> Fq {
                Fq(FqRepr::tagged(small::TAG_RAW, n))
            }
            fn two(
                &self,
                o: &Fq,
                real: impl FnOnce(&BigUint, &BigUint, &BigUint) -> BigUint,
                sym: impl FnOnce(&mut engine::Ctx, Id, Id) -> Id,
            ) -> Fq {
                if let (Some(a), Some(b)) = (self.constant(), o.constant()) {
                    return Fq::k(&real(&a, &b, &real_p()));
                }
                let (a, b) = (self.small(), o.small());
                Fq::from_small(engine::with(|c| sym(c, a, b)))
            }
            pub fn to_hex(&self) -> String {
                let mut b = vec![];
                self.into_repr().write_be(&mut b).unwrap();
                ::ff::hex::encode(&b)
            }
        }
        impl Copy for Fq {}
        impl Clone for Fq {
            fn clone(&self) -> Fq {
                *self
            }
        }
        impl PartialEq for Fq {
            fn eq(&self, o: &Fq) -> bool {
                let mut d = *self;
                d.sub_assign(o);
                d.is_zero()
            }
        }
        impl Eq for Fq {}
        impl Default for Fq {
            fn default() -> Fq {
                Fq::zero()
            }
        }
        impl Ord for Fq {
            fn cmp(&self, o: &Fq) -> std::cmp::Ordering {
                if let (Some(a), Some(b)) = (self.constant(), o.constant()) {
                    return a.cmp(&b);
                }
                engine::decide_value(self.small()).cmp(&engine::decide_value(o.small()))
            }
        }
        impl PartialOrd for Fq {
            fn partial_cmp(&self, o: &Fq) -> Option<std::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl std::fmt::Debug for Fq {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "Fq({:?})", (self.0).0)
            }
        }
        impl std::fmt::Display for Fq {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "Fq({})", self.into_repr())
            }
        }
        impl rand::Rand for Fq {
            fn rand<R: rand::Rng>(rng: &mut R) -> Fq {
                Fq::from_small(small::konst(rng.next_u64()))
            }
        }
        impl From<Fq> for FqRepr {
            fn from(x: Fq) -> FqRepr {
                x.into_repr()
            }
        }
        impl Field for Fq {
            fn zero() -> Fq {
                Fq(FqRepr([0; $n]))
            }
            fn one() -> Fq {
                Fq::k(&BigUint::from(1u32))
            }
            fn is_zero(&self) -> bool {
                match (self.0).tag() {
                    None => (self.0).0.iter().all(|x| *x == 0),
                    Some((_, n)) => small::zero(n),
                }
            }
            fn square(&mut self) {
                let x = *self;
                self.mul_assign(&x)
            }
            fn double(&mut self) {
                let x = *self;
                self.add_assign(&x)
            }
            fn negate(&mut self) {
                *self = Fq::zero().two(self, |a, b, p| a + p - b, |c, a, b| c.sub(a, b))
            }
            fn add_assign(&mut self, o: &Fq) {
                *self = self.two(o, |a, b, _| a + b, |c, a, b| c.add(a, b))
            }
            fn sub_assign(&mut self, o: &Fq) {
                *self = self.two(o, |a, b, p| a + p - b, |c, a, b| c.sub(a, b))
            }
            fn mul_assign(&mut self, o: &Fq) {
                *self = self.two(o, |a, b, _| a * b, |c, a, b| c.mul(a, b))
            }
            fn inverse(&self) -> Option<Fq> {
                if self.is_zero() {
                    return None;
                }
                Some(match self.constant() {
                    Some(a) => Fq::k(&small::inv_big(&a, &real_p())),
                    None => {
                        let a = self.small();
                        Fq::from_small(engine::with(|c| c.inv_nz(a)))
                    }
                })
            }
            fn frobenius_map(&mut self, _: usize) {}
        }
        impl ::ff::SqrtField for Fq {
            fn legendre(&self) -> ::ff::LegendreSymbol {
                if self.is_zero() {
                    ::ff::LegendreSymbol::Zero
                } else if engine::decide(engine::Cond::Square(self.small())) {
                    ::ff::LegendreSymbol::QuadraticResidue
                } else {
                    ::ff::LegendreSymbol::QuadraticNonResidue
                }
            }
            fn sqrt(&self) -> Option<Fq> {
                let a = self.small();
                if engine::decide(engine::Cond::Square(a)) {
                    Some(Fq::from_small(engine::with(|c| c.sqrt_sq(a))))
                } else {
                    None
                }
            }
        }
        impl PrimeField for Fq {
            type Repr = FqRepr;
            fn from_repr(r: FqRepr) -> Result<Fq, PrimeFieldDecodingError> {
                match r.tag() {
                    Some((small::TAG_CAN, n)) => Ok(Fq::from_small(n)),
                    // Montgomery words read as the number itself: another element
                    Some((_, n)) => Ok(Fq::from_small(engine::with(|c| c.scale(n, small::p() - 1)))),
                    None => {
                        let v = small::big(&r.0);
                        if v < real_p() {
                            Ok(Fq::k(&v))
                        } else {
                            Err(PrimeFieldDecodingError::NotInField(format!("{}", v)))
                        }
                    }
                }
            }
            fn from_raw_repr(r: FqRepr) -> Result<Fq, PrimeFieldDecodingError> {
                match r.tag() {
                    Some((small::TAG_RAW, n)) => Ok(Fq::from_small(n)),
                    Some((_, n)) => Ok(Fq::from_small(engine::with(|c| c.scale(n, small::p() - 1)))),
                    None => {
                        if small::big(&r.0) < real_p() {
                            Ok(Fq(r))
                        } else {
                            Err(PrimeFieldDecodingError::NotInField(format!("{}", r)))
                        }
                    }
                }
            }
            fn into_repr(&self) -> FqRepr {
                match self.constant() {
                    Some(v) => FqRepr::of(&v),
                    None => FqRepr::tagged(small::TAG_CAN, self.small()),
                }
            }
            fn into_raw_repr(&self) -> FqRepr {
                self.0
            }
            fn char() -> FqRepr {
                FqRepr::of(&real_p())
            }
            const NUM_BITS: u32 = $bits;
            const CAPACITY: u32 = $bits - 1;
            fn multiplicative_generator() -> Fq {
                Fq::k(&BigUint::from(2u32))
            }
            const S: u32 = $s;
            fn root_of_unity() -> Fq {
                let mut x = Fq::one();
                x.negate();
                x
            }
        }
        impl PartialEq for FqRepr {
            fn eq(&self, o: &FqRepr) -> bool {
                match (self.tag(), o.tag()) {
                    (Some((s, a)), Some((t, b))) if s == t => small::zero(engine::with(|c| c.sub(a, b))),
                    (None, None) => self.0 == o.0,
                    _ => self.int() == o.int(),
                }
            }
        }
        impl Eq for FqRepr {}
        impl Ord for FqRepr {
            fn cmp(&self, o: &FqRepr) -> std::cmp::Ordering {
                self.int().cmp(&o.int())
            }
        }
        impl PartialOrd for FqRepr {
            fn partial_cmp(&self, o: &FqRepr) -> Option<std::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl std::fmt::Debug for FqRepr {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{:x?}", self.0)
            }
        }
        impl std::fmt::Display for FqRepr {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "0x")?;
                for i in self.0.iter().rev() {
                    write!(f, "{:016x}", *i)?;
                }
                Ok(())
            }
        }
        impl rand::Rand for FqRepr {
            fn rand<R: rand::Rng>(rng: &mut R) -> FqRepr {
                let mut x = [0u64; $n];
                for l in x.iter_mut() {
                    *l = rng.next_u64();
                }
                FqRepr(x)
            }
        }
        impl AsRef<[u64]> for FqRepr {
            fn as_ref(&self) -> &[u64] {
                &self.0
            }
        }
        impl AsMut<[u64]> for FqRepr {
            fn as_mut(&mut self) -> &mut [u64] {
                &mut self.0
            }
        }
        impl From<u64> for FqRepr {
            fn from(v: u64) -> FqRepr {
                let mut r = FqRepr([0; $n]);
                r.0[0] = v;
                r
            }
        }
        impl PrimeFieldRepr for FqRepr {
            fn sub_noborrow(&mut self, o: &FqRepr) {
                let m = BigUint::from(1u32) << (64 * $n);
                *self = FqRepr::of(&((self.int() + &m - o.int()) % &m));
            }
            fn add_nocarry(&mut self, o: &FqRepr) {
                *self = FqRepr::of(&(self.int() + o.int()));
            }
            fn num_bits(&self) -> u32 {
                self.int().bits() as u32
            }
            fn is_zero(&self) -> bool {
                match self.tag() {
                    None => self.0.iter().all(|x| *x == 0),
                    Some((_, n)) => small::zero(n),
                }
            }
            fn is_odd(&self) -> bool {
                (self.int() % 2u32) == BigUint::from(1u32)
            }
            fn is_even(&self) -> bool {
                !self.is_odd()
            }
            fn div2(&mut self) {
                self.shr(1)
            }
            fn shr(&mut self, a: u32) {
                self.pin();
                *self = FqRepr::of(&(small::big(&self.0) >> a as usize));
            }
            fn mul2(&mut self) {
                self.shl(1)
            }
            fn shl(&mut self, a: u32) {
                self.pin();
                *self = FqRepr::of(&(small::big(&self.0) << a as usize));
            }
        }
    };
}

// ---- multiples of a symbolic point ------------------------------------------------------------
type E = (u64, u64);
fn mul2(a: E, b: E, p: u64) -> E {
    ((a.0 * b.0 + p * p - a.1 * b.1 % p) % p, (a.0 * b.1 + a.1 * b.0) % p)
}
fn add2(a: E, b: E, p: u64) -> E {
    ((a.0 + b.0) % p, (a.1 + b.1) % p)
}
fn sub2(a: E, b: E, p: u64) -> E {
    ((a.0 + p - b.0) % p, (a.1 + p - b.1) % p)
}
fn inv2(a: E, p: u64) -> E {
    let n = engine::inv_mod((a.0 * a.0 + a.1 * a.1) % p, p);
    (a.0 * n % p, (p - a.1) % p * n % p)
}
fn addp(a: Option<(E, E)>, b: Option<(E, E)>, p: u64) -> Option<(E, E)> {
    let ((x1, y1), (x2, y2)) = match (a, b) {
        (None, q) | (q, None) => return q,
        (Some(a), Some(b)) => (a, b),
    };
    let l = if x1 == x2 {
        if add2(y1, y2, p) == (0, 0) {
            return None;
        }
        mul2(mul2((3, 0), mul2(x1, x1, p), p), inv2(add2(y1, y1, p), p), p)
    } else {
        mul2(sub2(y2, y1, p), inv2(sub2(x2, x1, p), p), p)
    };
    let x = sub2(mul2(l, l, p), add2(x1, x2, p), p);
    Some((x, sub2(mul2(l, sub2(x1, x, p), p), y1, p)))
}

/// k times a symbolic affine point of the curve y^2 = x^3 + b, as projective coordinates defined by
/// the graph of that function on the small curve.  Off the curve (where no caller may rely on the
/// result) the coordinates are arbitrary.  None: nothing symbolic, or a concrete replay.
pub fn multiple(x: &[Id], y: &[Id], b: &[Id], on_curve: impl FnOnce() -> bool, bits: &[bool]) -> Option<(Vec<Id>, Vec<Id>, Vec<Id>)> {
    use symcore::engine::Fm;
    let known = |v: &[Id]| v.iter().all(|n| engine::with(|c| c.as_const(*n)).is_some());
    if engine::is_conc() || (known(x) && known(y)) || !known(b) {
        return None;
    }
    let q = p();
    let ext = x.len() == 2;
    let fresh = |pre: &str| -> Vec<Id> {
        (0..x.len())
            .map(|_| {
                engine::with(|c| {
                    let n = c.fresh_name(pre);
                    c.var(&n, q)
                })
            })
            .collect()
    };
    let (rx, ry, rz) = (fresh("mul!x"), fresh("mul!y"), fresh("mul!z"));
    if !on_curve() {
        return Some((rx, ry, rz));
    }
    let val = |v: &[Id], i: usize| if i < v.len() { engine::with(|c| c.as_const(v[i])).unwrap() } else { 0 };
    let bb = (val(b, 0), val(b, 1));
    let els: Vec<E> = (0..q).flat_map(|i| (0..if ext { q } else { 1 }).map(move |j| (i, j))).collect();
    let mut roots: std::collections::HashMap<E, Vec<E>> = Default::default();
    for e in &els {
        roots.entry(mul2(*e, *e, q)).or_default().push(*e);
    }
    let is = |v: &[Id], e: E| -> Vec<Fm> {
        let w = [e.0, e.1];
        v.iter()
            .zip(w.iter())
            .map(|(n, k)| {
                let z = engine::with(|c| {
                    let kk = c.konst(*k, q);
                    let d = c.sub(*n, kk);
                    let cond = c.norm_cond(Cond::Zero(d));
                    match c.eval_cond(&cond) {
                        Some(b) => Fm::bool(b),
                        None => Fm::C(cond),
                    }
                });
                z
            })
            .collect()
    };
    let mut rows = vec![];
    for px in &els {
        let rhs = add2(mul2(mul2(*px, *px, q), *px, q), bb, q);
        for py in roots.get(&rhs).cloned().unwrap_or_default() {
            let base = Some((*px, py));
            let mut r = None;
            for b in bits {
                r = addp(r, r, q);
                if *b {
                    r = addp(r, base, q);
                }
            }
            let (ox, oy, oz) = match r {
                None => ((0, 0), (1, 0), (0, 0)),
                Some((x, y)) => (x, y, (1, 0)),
            };
            let mut row = is(x, *px);
            row.extend(is(y, py));
            row.extend(is(&rx, ox));
            row.extend(is(&ry, oy));
            row.extend(is(&rz, oz));
            rows.push(Fm::and(row));
        }
    }
    engine::assume(Fm::or(rows));
    Some((rx, ry, rz))
}

pub trait Small {
    fn nodes(&self) -> Vec<Id>;
    fn of_nodes(v: &[Id]) -> Self;
}
macro_rules! small_ext {
    ($m:ident) => {
        impl Small for crate::$m::Fq {
            fn nodes(&self) -> Vec<Id> {
                vec![self.small()]
            }
            fn of_nodes(v: &[Id]) -> Self {
                Self::from_small(v[0])
            }
        }
        impl Small for crate::$m::Fq2 {
            fn nodes(&self) -> Vec<Id> {
                vec![self.c0.small(), self.c1.small()]
            }
            fn of_nodes(v: &[Id]) -> Self {
                crate::$m::Fq2 { c0: crate::$m::Fq::from_small(v[0]), c1: crate::$m::Fq::from_small(v[1]) }
            }
        }
    };
}
small_ext!(bn256);
small_ext!(bls12_381);
