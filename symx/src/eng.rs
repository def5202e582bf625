//! `Eng<P>`: a symbolic bilinear group of prime order P.  Group elements are their discrete
//! logarithms (symbolic field elements), the pairing multiplies them.  Encodings are uninterpreted:
//! decoding a byte string never seen before yields a fresh symbolic verdict and a fresh element.
use crate::engine::*;
use crate::field::{R, S};
use ff::{Field, PrimeField, ScalarEngine};
use pairing::{CurveAffine, CurveProjective, EncodedPoint, Engine, GroupDecodingError, RawEncodable};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;

#[derive(Clone, Copy, Debug)]
pub struct Eng<const P: u64>;

impl<const P: u64> ScalarEngine for Eng<P> {
    type Fr = S<P>;
}

/// the base field plays no role: a point is its discrete logarithm
type Fq = S<31>;

thread_local! {
    /// (encoding kind, bytes) -> (valid (nonzero), element)
    static DEC: RefCell<HashMap<(u8, Vec<u8>), (Id, Id)>> = RefCell::new(HashMap::new());
    static NENC: RefCell<u64> = RefCell::new(0);
}
pub fn reset() {
    DEC.with(|d| d.borrow_mut().clear());
    NENC.with(|d| *d.borrow_mut() = 0);
}
/// what decoding these bytes gives: (valid if non-zero, element)
pub fn meaning<const P: u64>(kind: u8, b: &[u8]) -> (S<3>, S<P>) {
    let key = (kind, b.to_vec());
    if let Some((v, e)) = DEC.with(|d| d.borrow().get(&key).cloned()) {
        return (S(v), S(e));
    }
    let n = DEC.with(|d| d.borrow().len());
    let v = S::<3>::var(&format!("valid{}", n));
    let e = S::<P>::var(&format!("elem{}", n));
    DEC.with(|d| d.borrow_mut().insert(key, (v.0, e.0)));
    (v, e)
}
fn encode<const P: u64, const N: usize>(kind: u8, e: S<P>) -> [u8; N] {
    // one encoding per expression; equal elements written through different expressions get
    // different bytes, and both decode to the element
    let n = NENC.with(|d| {
        *d.borrow_mut() += 1;
        *d.borrow()
    });
    let mut b = [0xc0 | kind; N];
    b[0] = 0xe0 | kind;
    b[1] = (n >> 8) as u8;
    b[2] = n as u8;
    DEC.with(|d| d.borrow_mut().insert((kind, b.to_vec()), (S::<3>::k(1).0, e.0)));
    b
}

macro_rules! group {
    ($proj:ident, $aff:ident, $comp:ident, $unc:ident, $prep:ident, $pair:ident, $kc:expr, $ku:expr, $n:expr, $m:expr) => {
        #[derive(Clone, Copy)]
        pub struct $proj<const P: u64>(pub S<P>);
        #[derive(Clone, Copy)]
        pub struct $aff<const P: u64>(pub S<P>);
        #[derive(Clone, Copy)]
        pub struct $prep<const P: u64>(pub S<P>);
        impl<const P: u64> PartialEq for $proj<P> {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl<const P: u64> Eq for $proj<P> {}
        impl<const P: u64> PartialEq for $aff<P> {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl<const P: u64> Eq for $aff<P> {}
        impl<const P: u64> fmt::Debug for $proj<P> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{:?}", self.0)
            }
        }
        impl<const P: u64> fmt::Display for $proj<P> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{:?}", self.0)
            }
        }
        impl<const P: u64> fmt::Debug for $aff<P> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{:?}", self.0)
            }
        }
        impl<const P: u64> fmt::Display for $aff<P> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{:?}", self.0)
            }
        }
        impl<const P: u64> rand::Rand for $proj<P> {
            fn rand<G: rand::Rng>(rng: &mut G) -> Self {
                $proj(<S<P> as rand::Rand>::rand(rng))
            }
        }
        impl<const P: u64> From<$aff<P>> for $proj<P> {
            fn from(a: $aff<P>) -> Self {
                $proj(a.0)
            }
        }
        impl<const P: u64> From<$proj<P>> for $aff<P> {
            fn from(a: $proj<P>) -> Self {
                $aff(a.0)
            }
        }
        fn scal<const P: u64>(r: R<P>) -> S<P> {
            match r.node() {
                Some(n) => S(n),
                None => S::k(r.as_ref()[0] % P),
            }
        }
        impl<const P: u64> CurveProjective for $proj<P> {
            type Engine = Eng<P>;
            type Scalar = S<P>;
            type Base = Fq;
            type Affine = $aff<P>;
            fn zero() -> Self {
                $proj(S::k(0))
            }
            fn one() -> Self {
                $proj(S::k(1))
            }
            fn is_zero(&self) -> bool {
                self.0.is_zero()
            }
            fn batch_normalization(_: &mut [Self]) {}
            fn is_normalized(&self) -> bool {
                false
            }
            fn double(&mut self) {
                self.0 = self.0.sc(2)
            }
            fn add_assign(&mut self, o: &Self) {
                self.0 = self.0.a(&o.0)
            }
            fn add_assign_mixed(&mut self, o: &$aff<P>) {
                self.0 = self.0.a(&o.0)
            }
            fn negate(&mut self) {
                self.0 = self.0.neg()
            }
            fn mul_assign<T: Into<R<P>>>(&mut self, o: T) {
                self.0 = self.0.m(&scal(o.into()))
            }
            fn into_affine(&self) -> $aff<P> {
                $aff(self.0)
            }
            fn recommended_wnaf_for_scalar(_: R<P>) -> usize {
                2
            }
            fn recommended_wnaf_for_num_scalars(_: usize) -> usize {
                2
            }
        }
        impl<const P: u64> CurveAffine for $aff<P> {
            type Engine = Eng<P>;
            type Scalar = S<P>;
            type Base = Fq;
            type Projective = $proj<P>;
            type Prepared = $prep<P>;
            type Uncompressed = $unc<P>;
            type Compressed = $comp<P>;
            type Pair = $pair<P>;
            type PairingResult = K<P>;
            fn zero() -> Self {
                $aff(S::k(0))
            }
            fn one() -> Self {
                $aff(S::k(1))
            }
            fn is_zero(&self) -> bool {
                self.0.is_zero()
            }
            fn negate(&mut self) {
                self.0 = self.0.neg()
            }
            fn mul<T: Into<R<P>>>(&self, o: T) -> $proj<P> {
                $proj(self.0.m(&scal(o.into())))
            }
            fn prepare(&self) -> $prep<P> {
                $prep(self.0)
            }
            fn pairing_with(&self, o: &$pair<P>) -> K<P> {
                K { e: self.0.m(&o.0), fin: true }
            }
            fn into_projective(&self) -> $proj<P> {
                $proj(self.0)
            }
        }
        enc!($comp, $aff, $kc, $n);
        enc!($unc, $aff, $ku, $m);
    };
}
macro_rules! enc {
    ($t:ident, $aff:ident, $k:expr, $n:expr) => {
        #[derive(Clone, Copy)]
        pub struct $t<const P: u64>(pub [u8; $n]);
        impl<const P: u64> $t<P> {
            pub const KIND: u8 = $k;
            pub const LEN: usize = $n;
        }
        impl<const P: u64> AsRef<[u8]> for $t<P> {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl<const P: u64> AsMut<[u8]> for $t<P> {
            fn as_mut(&mut self) -> &mut [u8] {
                &mut self.0
            }
        }
        impl<const P: u64> EncodedPoint for $t<P> {
            type Affine = $aff<P>;
            fn empty() -> Self {
                $t([0; $n])
            }
            fn size() -> usize {
                $n
            }
            fn into_affine(&self) -> Result<$aff<P>, GroupDecodingError> {
                let (v, e) = meaning::<P>($k, &self.0);
                if v.is_zero() {
                    Err(GroupDecodingError::NotInSubgroup)
                } else {
                    Ok($aff(e))
                }
            }
            fn into_affine_unchecked(&self) -> Result<$aff<P>, GroupDecodingError> {
                Ok($aff(meaning::<P>($k, &self.0).1))
            }
            fn from_affine(a: $aff<P>) -> Self {
                $t(encode($k, a.0))
            }
        }
    };
}
mod g1 {
    use super::*;
    group!(G1, A1, C1, U1, Pr1, A2, 1, 2, 4, 8);
}
mod g2 {
    use super::*;
    group!(G2, A2, C2, U2, Pr2, A1, 3, 4, 6, 12);
}
pub use g1::*;
pub use g2::*;

impl<const P: u64> RawEncodable for A1<P> {
    fn into_raw_uncompressed_le(&self) -> U1<P> {
        self.into_uncompressed()
    }
    fn from_raw_uncompressed_le_unchecked(e: &U1<P>, _: bool) -> Result<Self, GroupDecodingError> {
        e.into_affine_unchecked()
    }
    fn from_raw_uncompressed_le(e: &U1<P>, _: bool) -> Result<Self, GroupDecodingError> {
        e.into_affine()
    }
}

/// Target group, written multiplicatively: `e` is the discrete logarithm.  Before the final
/// exponentiation a value is only a representative and may not be compared.
#[derive(Clone, Copy, Debug)]
pub struct K<const P: u64> {
    pub e: S<P>,
    pub fin: bool,
}
impl<const P: u64> PartialEq for K<P> {
    fn eq(&self, o: &Self) -> bool {
        assert!(self.fin && o.fin, "comparison before the final exponentiation");
        self.e == o.e
    }
}
impl<const P: u64> Eq for K<P> {}
impl<const P: u64> fmt::Display for K<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.e)
    }
}
impl<const P: u64> rand::Rand for K<P> {
    fn rand<G: rand::Rng>(rng: &mut G) -> Self {
        K { e: <S<P> as rand::Rand>::rand(rng), fin: true }
    }
}
impl<const P: u64> Field for K<P> {
    fn zero() -> Self {
        panic!("the target group has no zero")
    }
    fn one() -> Self {
        K { e: S::k(0), fin: true }
    }
    fn is_zero(&self) -> bool {
        false
    }
    fn square(&mut self) {
        self.e = self.e.sc(2)
    }
    fn double(&mut self) {
        panic!("addition in the target group")
    }
    fn negate(&mut self) {
        panic!("addition in the target group")
    }
    fn add_assign(&mut self, _: &Self) {
        panic!("addition in the target group")
    }
    fn sub_assign(&mut self, _: &Self) {
        panic!("addition in the target group")
    }
    fn mul_assign(&mut self, o: &Self) {
        self.e = self.e.a(&o.e);
        self.fin = self.fin && o.fin;
    }
    fn inverse(&self) -> Option<Self> {
        Some(K { e: self.e.neg(), fin: self.fin })
    }
    fn frobenius_map(&mut self, _: usize) {}
}

impl<const P: u64> Engine for Eng<P> {
    type G1 = G1<P>;
    type G1Affine = A1<P>;
    type G2 = G2<P>;
    type G2Affine = A2<P>;
    type Fq = Fq;
    type Fqe = Fq;
    type Fqk = K<P>;
    fn miller_loop<'a, I>(i: I) -> K<P>
    where
        I: IntoIterator<Item = &'a (&'a Pr1<P>, &'a Pr2<P>)>,
    {
        let mut e = S::k(0);
        for (a, b) in i {
            e = e.a(&a.0.m(&b.0));
        }
        K { e, fin: false }
    }
    fn final_exponentiation(r: &K<P>) -> Option<K<P>> {
        // applied to a finished value it raises to some fixed power
        Some(K { e: if r.fin { r.e.sc(3) } else { r.e }, fin: true })
    }
}
#[allow(dead_code)]
fn _assert<const P: u64>() -> u32 {
    <S<P> as PrimeField>::NUM_BITS
}
