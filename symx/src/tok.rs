//! `T<P>`: a field element whose representation is an opaque 64-bit word.  Whether a word is the
//! representation of an element, and of which, is left to the solver (uninterpreted), except that
//! small integers and words written by an element mean themselves.
use crate::engine::*;
use crate::field::S;
use ff::{Field, LegendreSymbol, PrimeField, PrimeFieldDecodingError, PrimeFieldRepr, SqrtField};
use std::cell::RefCell;
use std::collections::HashMap;
use std::cmp::Ordering;
use std::fmt;
use std::io::{self, Read, Write};

const CHAR: u64 = 0xffff_ffff_ffff_ffc5;
const BASE: u64 = 0x4000_0000_0000_0000;

#[derive(Clone, Copy)]
pub struct T<const P: u64> {
    pub n: S<P>,
    tok: u64,
}
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct TR(pub [u64; 1]);

thread_local! {
    static WORDS: RefCell<HashMap<u64, (Id, Id)>> = RefCell::new(HashMap::new());
}
pub fn reset() {
    WORDS.with(|w| w.borrow_mut().clear());
}
/// (valid if non-zero, element)
pub fn meaning<const P: u64>(w: u64) -> (S<3>, S<P>) {
    if w <= 1 << 32 {
        return (S::k(1), S::k(w % P));
    }
    if w >= CHAR {
        return (S::k(0), S::k(0));
    }
    if w >= CHAR - (1 << 32) {
        return (S::k(1), S::k((P - (CHAR - w) % P) % P));
    }
    if let Some((v, e)) = WORDS.with(|d| d.borrow().get(&w).cloned()) {
        return (S(v), S(e));
    }
    let v = S::<3>::var(&format!("ok{:x}", w));
    let e = S::<P>::var(&format!("word{:x}", w));
    WORDS.with(|d| d.borrow_mut().insert(w, (v.0, e.0)));
    (v, e)
}
impl<const P: u64> T<P> {
    fn new(n: S<P>) -> Self {
        T { n, tok: 0 }
    }
    /// an arbitrary element with its own representation
    pub fn var(name: &str) -> Self {
        let n = S::<P>::var(name);
        let k = WORDS.with(|d| d.borrow().len()) as u64;
        // all eight bytes of the word differ from each other and from those of other words
        let mut b = [0u8; 8];
        for (i, x) in b.iter_mut().enumerate() {
            *x = (8 * k + i as u64) as u8;
        }
        b[7] = 0x40 | k as u8 & 0x3f;
        let tok = u64::from_le_bytes(b);
        WORDS.with(|d| d.borrow_mut().insert(tok, (S::<3>::k(1).0, n.0)));
        T { n, tok }
    }
    pub fn word(&self) -> u64 {
        if self.tok != 0 {
            return self.tok;
        }
        if let Some(v) = self.n.as_const() {
            return if v <= P / 2 { v } else { CHAR - (P - v) };
        }
        let tok = BASE + (1 << 40) + self.n.0 as u64;
        WORDS.with(|d| d.borrow_mut().insert(tok, (S::<3>::k(1).0, self.n.0)));
        tok
    }
}
impl<const P: u64> PartialEq for T<P> {
    fn eq(&self, o: &Self) -> bool {
        self.n == o.n
    }
}
impl<const P: u64> Eq for T<P> {}
impl<const P: u64> fmt::Debug for T<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.n)
    }
}
impl<const P: u64> fmt::Display for T<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.n)
    }
}
impl<const P: u64> rand::Rand for T<P> {
    fn rand<G: rand::Rng>(rng: &mut G) -> Self {
        T::new(<S<P> as rand::Rand>::rand(rng))
    }
}
impl<const P: u64> Field for T<P> {
    fn zero() -> Self {
        T::new(S::k(0))
    }
    fn one() -> Self {
        T::new(S::k(1))
    }
    fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    fn square(&mut self) {
        *self = T::new(self.n.sq())
    }
    fn double(&mut self) {
        *self = T::new(self.n.sc(2))
    }
    fn negate(&mut self) {
        *self = T::new(self.n.neg())
    }
    fn add_assign(&mut self, o: &Self) {
        *self = T::new(self.n.a(&o.n))
    }
    fn sub_assign(&mut self, o: &Self) {
        *self = T::new(self.n.s(&o.n))
    }
    fn mul_assign(&mut self, o: &Self) {
        *self = T::new(self.n.m(&o.n))
    }
    fn inverse(&self) -> Option<Self> {
        self.n.inverse().map(T::new)
    }
    fn frobenius_map(&mut self, _: usize) {}
}
impl<const P: u64> SqrtField for T<P> {
    fn legendre(&self) -> LegendreSymbol {
        self.n.legendre()
    }
    fn sqrt(&self) -> Option<Self> {
        self.n.sqrt().map(T::new)
    }
}
impl<const P: u64> From<T<P>> for TR {
    fn from(t: T<P>) -> TR {
        t.into_repr()
    }
}
impl<const P: u64> PrimeField for T<P> {
    type Repr = TR;
    fn from_repr(r: TR) -> Result<Self, PrimeFieldDecodingError> {
        let (v, e) = meaning::<P>(r.0[0]);
        if v.is_zero() {
            Err(PrimeFieldDecodingError::NotInField(format!("{}", r.0[0])))
        } else {
            Ok(T { n: e, tok: if e.as_const().is_some() && r.0[0] <= 1 << 32 { 0 } else { r.0[0] } })
        }
    }
    fn from_raw_repr(r: TR) -> Result<Self, PrimeFieldDecodingError> {
        Self::from_repr(r).map(|x| T::new(x.n.neg()))
    }
    fn into_repr(&self) -> TR {
        TR([self.word()])
    }
    fn into_raw_repr(&self) -> TR {
        TR([T::new(self.n.neg()).word()])
    }
    fn char() -> TR {
        TR([CHAR])
    }
    const NUM_BITS: u32 = 64;
    const CAPACITY: u32 = 63;
    fn multiplicative_generator() -> Self {
        T::new(<S<P> as PrimeField>::multiplicative_generator())
    }
    const S: u32 = <S<P> as PrimeField>::S;
    fn root_of_unity() -> Self {
        T::new(<S<P> as PrimeField>::root_of_unity())
    }
}
impl AsRef<[u64]> for TR {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl AsMut<[u64]> for TR {
    fn as_mut(&mut self) -> &mut [u64] {
        &mut self.0
    }
}
impl From<u64> for TR {
    fn from(v: u64) -> Self {
        TR([v])
    }
}
impl PartialOrd for TR {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TR {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl fmt::Debug for TR {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:x}", self.0[0])
    }
}
impl fmt::Display for TR {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:x}", self.0[0])
    }
}
impl rand::Rand for TR {
    fn rand<G: rand::Rng>(rng: &mut G) -> Self {
        TR([rng.next_u64()])
    }
}
impl PrimeFieldRepr for TR {
    fn sub_noborrow(&mut self, o: &Self) {
        self.0[0] = self.0[0].wrapping_sub(o.0[0])
    }
    fn add_nocarry(&mut self, o: &Self) {
        self.0[0] = self.0[0].wrapping_add(o.0[0])
    }
    fn num_bits(&self) -> u32 {
        64 - self.0[0].leading_zeros()
    }
    fn is_zero(&self) -> bool {
        self.0[0] == 0
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn is_even(&self) -> bool {
        !self.is_odd()
    }
    fn div2(&mut self) {
        self.0[0] >>= 1
    }
    fn shr(&mut self, n: u32) {
        self.0[0] = if n > 63 { 0 } else { self.0[0] >> n }
    }
    fn mul2(&mut self) {
        self.0[0] <<= 1
    }
    fn shl(&mut self, n: u32) {
        self.0[0] = if n > 63 { 0 } else { self.0[0] << n }
    }
    fn write_be<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&self.0[0].to_be_bytes())
    }
    fn read_be<Rd: Read>(&mut self, mut r: Rd) -> io::Result<()> {
        let mut b = [0u8; 8];
        r.read_exact(&mut b)?;
        self.0[0] = u64::from_be_bytes(b);
        Ok(())
    }
    fn write_le<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&self.0[0].to_le_bytes())
    }
    fn read_le<Rd: Read>(&mut self, mut r: Rd) -> io::Result<()> {
        let mut b = [0u8; 8];
        r.read_exact(&mut b)?;
        self.0[0] = u64::from_le_bytes(b);
        Ok(())
    }
}
