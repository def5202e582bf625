//! `S<P>`: an element of GF(P) whose value is a node of the engine's expression DAG, and its
//! big-integer representation `R<P>`.  These implement the `ff` traits fawkes-crypto is generic
//! over, so that the real code can be instantiated at them.
use crate::engine::*;
use ff::{Field, LegendreSymbol, PrimeField, PrimeFieldDecodingError, PrimeFieldRepr, SqrtField};
use std::cmp::Ordering;
use std::fmt;
use std::io::{self, Read, Write};

#[derive(Clone, Copy)]
pub struct S<const P: u64>(pub Id);

const NONE: Id = u32::MAX;

#[derive(Clone, Copy)]
pub struct R<const P: u64> {
    limb: [u64; 1],
    node: Id,
}

pub const fn nbits(p: u64) -> u32 {
    64 - p.leading_zeros()
}
const fn two_adicity(p: u64) -> u32 {
    (p - 1).trailing_zeros()
}
fn nonresidue(p: u64) -> u64 {
    (2..p).find(|x| !is_square(*x, p)).unwrap()
}
fn generator(p: u64) -> u64 {
    'o: for g in 2..p {
        let mut n = p - 1;
        let mut f = 2;
        while n > 1 {
            if n % f == 0 {
                if pow_mod(g, (p - 1) / f, p) == 1 {
                    continue 'o;
                }
                while n % f == 0 {
                    n /= f;
                }
            }
            f += 1;
        }
        return g;
    }
    nonresidue(p)
}

impl<const P: u64> S<P> {
    pub fn k(v: u64) -> Self {
        S(with(|c| c.konst(v, P)))
    }
    pub fn var(name: &str) -> Self {
        S(with(|c| c.var(name, P)))
    }
    pub fn as_const(&self) -> Option<u64> {
        with(|c| c.as_const(self.0))
    }
    /// arithmetic that never forks
    pub fn a(&self, o: &Self) -> Self {
        S(with(|c| c.add(self.0, o.0)))
    }
    pub fn s(&self, o: &Self) -> Self {
        S(with(|c| c.sub(self.0, o.0)))
    }
    pub fn m(&self, o: &Self) -> Self {
        S(with(|c| c.mul(self.0, o.0)))
    }
    pub fn sc(&self, k: u64) -> Self {
        S(with(|c| c.scale(self.0, k % P)))
    }
    pub fn neg(&self) -> Self {
        self.sc(P - 1)
    }
    pub fn sq(&self) -> Self {
        self.m(self)
    }
    pub fn is_bit_fm(&self) -> Fm {
        Fm::or(vec![self.is_zero_fm(), self.eqk_fm(1)])
    }
    pub fn eqk_fm(&self, k: u64) -> Fm {
        self.eq_fm(&S::k(k % P))
    }
    pub fn eq_fm(&self, o: &Self) -> Fm {
        let d = with(|c| c.sub(self.0, o.0));
        zero_fm(d)
    }
    pub fn is_zero_fm(&self) -> Fm {
        zero_fm(self.0)
    }
    pub fn lt_fm(&self, b: u64) -> Fm {
        match self.as_const() {
            Some(v) => Fm::bool(v < b),
            None => Fm::Lt(self.0, b),
        }
    }
    pub fn odd_fm(&self) -> Fm {
        lit(Cond::Odd(self.0))
    }
    pub fn square_fm(&self) -> Fm {
        lit(Cond::Square(self.0))
    }
}
fn zero_fm(n: Id) -> Fm {
    lit(Cond::Zero(n))
}
fn lit(c: Cond) -> Fm {
    let c = with(|x| x.norm_cond(c));
    match with(|x| x.eval_cond(&c)) {
        Some(b) => Fm::bool(b),
        None => Fm::C(c),
    }
}

impl<const P: u64> PartialEq for S<P> {
    fn eq(&self, o: &Self) -> bool {
        let d = with(|c| c.sub(self.0, o.0));
        decide(Cond::Zero(d))
    }
}
impl<const P: u64> Eq for S<P> {}
impl<const P: u64> fmt::Debug for S<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.as_const() {
            Some(v) => write!(f, "{}", v),
            None => write!(f, "sym#{}", self.0),
        }
    }
}
impl<const P: u64> fmt::Display for S<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl<const P: u64> rand::Rand for S<P> {
    fn rand<G: rand::Rng>(rng: &mut G) -> Self {
        if with(|c| c.symbolic_rand) {
            let n = with(|c| c.fresh_name("rand"));
            return S::var(&n);
        }
        if let Some(h) = with(|c| c.rand_hook) {
            return S(h(rng.next_u64(), P));
        }
        S::k(rng.next_u64() % P)
    }
}

impl<const P: u64> Field for S<P> {
    fn zero() -> Self {
        S::k(0)
    }
    fn one() -> Self {
        S::k(1)
    }
    fn is_zero(&self) -> bool {
        decide(Cond::Zero(self.0))
    }
    fn square(&mut self) {
        self.0 = with(|c| c.mul(self.0, self.0))
    }
    fn double(&mut self) {
        self.0 = with(|c| c.add(self.0, self.0))
    }
    fn negate(&mut self) {
        self.0 = with(|c| c.scale(self.0, P - 1))
    }
    fn add_assign(&mut self, o: &Self) {
        self.0 = with(|c| c.add(self.0, o.0))
    }
    fn sub_assign(&mut self, o: &Self) {
        self.0 = with(|c| c.sub(self.0, o.0))
    }
    fn mul_assign(&mut self, o: &Self) {
        self.0 = with(|c| c.mul(self.0, o.0))
    }
    fn inverse(&self) -> Option<Self> {
        if decide(Cond::Zero(self.0)) {
            None
        } else {
            Some(S(with(|c| c.inv_nz(self.0))))
        }
    }
    fn frobenius_map(&mut self, _power: usize) {}
}

impl<const P: u64> SqrtField for S<P> {
    fn legendre(&self) -> LegendreSymbol {
        if decide(Cond::Zero(self.0)) {
            LegendreSymbol::Zero
        } else if decide(Cond::Square(self.0)) {
            LegendreSymbol::QuadraticResidue
        } else {
            LegendreSymbol::QuadraticNonResidue
        }
    }
    fn sqrt(&self) -> Option<Self> {
        if decide(Cond::Square(self.0)) {
            Some(S(with(|c| c.sqrt_sq(self.0))))
        } else {
            None
        }
    }
}

impl<const P: u64> PrimeField for S<P> {
    type Repr = R<P>;
    fn from_repr(r: R<P>) -> Result<Self, PrimeFieldDecodingError> {
        if r.node != NONE {
            return Ok(S(r.node));
        }
        if r.limb[0] < P {
            Ok(S::k(r.limb[0]))
        } else if r.limb[0] <= 8 && with(|c| c.small_literals) {
            Ok(S::k(r.limb[0] % P))
        } else {
            Err(PrimeFieldDecodingError::NotInField(format!("{}", r.limb[0])))
        }
    }
    // as with the Montgomery form of the real fields, the raw representation is not the canonical
    // one; here it is that of -x
    fn from_raw_repr(r: R<P>) -> Result<Self, PrimeFieldDecodingError> {
        Self::from_repr(r).map(|x| x.neg())
    }
    fn into_repr(&self) -> R<P> {
        match self.as_const() {
            Some(v) => R { limb: [v], node: NONE },
            None => R { limb: [0], node: self.0 },
        }
    }
    fn into_raw_repr(&self) -> R<P> {
        self.neg().into_repr()
    }
    fn char() -> R<P> {
        R { limb: [P], node: NONE }
    }
    const NUM_BITS: u32 = nbits(P);
    const CAPACITY: u32 = nbits(P) - 1;
    fn multiplicative_generator() -> Self {
        S::k(generator(P))
    }
    const S: u32 = two_adicity(P);
    fn root_of_unity() -> Self {
        S::k(pow_mod(generator(P), (P - 1) >> two_adicity(P), P))
    }
}

impl<const P: u64> R<P> {
    pub fn node(&self) -> Option<Id> {
        if self.node == NONE {
            None
        } else {
            Some(self.node)
        }
    }
    pub fn to_s(&self) -> S<P> {
        if self.node != NONE {
            S(self.node)
        } else {
            S::k(self.limb[0])
        }
    }
    fn pin(&self) -> u64 {
        if self.node == NONE {
            self.limb[0]
        } else {
            decide_value(self.node)
        }
    }
    const BYTES: usize = ((nbits(P) + 7) / 8) as usize;
}
fn leaked(v: u64) -> &'static [u64; 1] {
    // values of symbolic representations are < 2^12
    static TAB: std::sync::OnceLock<Vec<[u64; 1]>> = std::sync::OnceLock::new();
    let t = TAB.get_or_init(|| (0..4096u64).map(|x| [x]).collect());
    &t[v as usize]
}
impl<const P: u64> AsRef<[u64]> for R<P> {
    fn as_ref(&self) -> &[u64] {
        if self.node == NONE {
            &self.limb
        } else {
            leaked(self.pin())
        }
    }
}
impl<const P: u64> AsMut<[u64]> for R<P> {
    fn as_mut(&mut self) -> &mut [u64] {
        let v = self.pin();
        self.limb = [v];
        self.node = NONE;
        &mut self.limb
    }
}
impl<const P: u64> Default for R<P> {
    fn default() -> Self {
        R { limb: [0], node: NONE }
    }
}
impl<const P: u64> From<u64> for R<P> {
    fn from(v: u64) -> Self {
        R { limb: [v], node: NONE }
    }
}
impl<const P: u64> From<S<P>> for R<P> {
    fn from(s: S<P>) -> Self {
        s.into_repr()
    }
}
impl<const P: u64> PartialEq for R<P> {
    fn eq(&self, o: &Self) -> bool {
        if self.node == NONE && o.node == NONE {
            return self.limb == o.limb;
        }
        if (self.node == NONE && self.limb[0] >= P) || (o.node == NONE && o.limb[0] >= P) {
            return false;
        }
        self.to_s() == o.to_s()
    }
}
impl<const P: u64> Eq for R<P> {}
impl<const P: u64> PartialOrd for R<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const P: u64> Ord for R<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.pin().cmp(&o.pin())
    }
}
impl<const P: u64> fmt::Debug for R<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.node == NONE {
            write!(f, "{}", self.limb[0])
        } else {
            write!(f, "sym#{}", self.node)
        }
    }
}
impl<const P: u64> fmt::Display for R<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl<const P: u64> rand::Rand for R<P> {
    fn rand<G: rand::Rng>(rng: &mut G) -> Self {
        R { limb: [rng.next_u64()], node: NONE }
    }
}
impl<const P: u64> PrimeFieldRepr for R<P> {
    fn sub_noborrow(&mut self, o: &Self) {
        let v = o.pin();
        let m = self.as_mut();
        m[0] = m[0].wrapping_sub(v);
    }
    fn add_nocarry(&mut self, o: &Self) {
        let v = o.pin();
        let m = self.as_mut();
        m[0] = m[0].wrapping_add(v);
    }
    fn num_bits(&self) -> u32 {
        64 - self.pin().leading_zeros()
    }
    fn is_zero(&self) -> bool {
        if self.node == NONE {
            self.limb[0] == 0
        } else {
            decide(Cond::Zero(self.node))
        }
    }
    fn is_odd(&self) -> bool {
        if self.node == NONE {
            self.limb[0] & 1 == 1
        } else {
            decide(Cond::Odd(self.node))
        }
    }
    fn is_even(&self) -> bool {
        !self.is_odd()
    }
    fn div2(&mut self) {
        self.as_mut()[0] >>= 1;
    }
    fn shr(&mut self, amt: u32) {
        let m = self.as_mut();
        m[0] = if amt > 63 { 0 } else { m[0] >> amt };
    }
    fn mul2(&mut self) {
        self.as_mut()[0] <<= 1;
    }
    fn shl(&mut self, amt: u32) {
        let m = self.as_mut();
        m[0] = if amt > 63 { 0 } else { m[0] << amt };
    }
    // The representation is ceil(NUM_BITS/8) bytes long (the 64-bit limb padding of the real
    // fields coincides with that length; for a small modulus it would not).
    fn write_be<W: Write>(&self, mut w: W) -> io::Result<()> {
        let b = self.pin().to_be_bytes();
        w.write_all(&b[8 - Self::BYTES..])
    }
    fn read_be<Rd: Read>(&mut self, mut r: Rd) -> io::Result<()> {
        let mut b = [0u8; 8];
        r.read_exact(&mut b[8 - Self::BYTES..])?;
        *self = R { limb: [u64::from_be_bytes(b)], node: NONE };
        Ok(())
    }
    fn write_le<W: Write>(&self, mut w: W) -> io::Result<()> {
        let b = self.pin().to_le_bytes();
        w.write_all(&b[..Self::BYTES])
    }
    fn read_le<Rd: Read>(&mut self, mut r: Rd) -> io::Result<()> {
        let mut b = [0u8; 8];
        r.read_exact(&mut b[..Self::BYTES])?;
        *self = R { limb: [u64::from_le_bytes(b)], node: NONE };
        Ok(())
    }
}
