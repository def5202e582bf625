//! A wide (256-bit) scalar field of concrete values, over the tiny curves: only its integer
//! representation is used by the scalar multiplication under test.
use crate::field::S;
use fawkes_crypto::native::ecc::{EdwardsPoint, JubJubParams};
use fawkes_crypto::native::num::Num;
use ff::{Field, LegendreSymbol, PrimeField, PrimeFieldDecodingError, PrimeFieldRepr, SqrtField};
use std::fmt;
use std::io::{self, Read, Write};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct W(pub [u64; 4]);
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Default)]
pub struct WR(pub [u64; 4]);

impl fmt::Display for W {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl fmt::Display for WR {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl rand::Rand for W {
    fn rand<G: rand::Rng>(_: &mut G) -> Self {
        unimplemented!()
    }
}
impl rand::Rand for WR {
    fn rand<G: rand::Rng>(_: &mut G) -> Self {
        unimplemented!()
    }
}
impl Field for W {
    fn zero() -> Self {
        W([0; 4])
    }
    fn one() -> Self {
        W([1, 0, 0, 0])
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn square(&mut self) {
        unimplemented!()
    }
    fn double(&mut self) {
        unimplemented!()
    }
    fn negate(&mut self) {
        unimplemented!()
    }
    fn add_assign(&mut self, _: &Self) {
        unimplemented!()
    }
    fn sub_assign(&mut self, _: &Self) {
        unimplemented!()
    }
    fn mul_assign(&mut self, _: &Self) {
        unimplemented!()
    }
    fn inverse(&self) -> Option<Self> {
        unimplemented!()
    }
    fn frobenius_map(&mut self, _: usize) {}
}
impl SqrtField for W {
    fn legendre(&self) -> LegendreSymbol {
        unimplemented!()
    }
    fn sqrt(&self) -> Option<Self> {
        unimplemented!()
    }
}
impl PrimeField for W {
    type Repr = WR;
    fn from_repr(r: WR) -> Result<Self, PrimeFieldDecodingError> {
        Ok(W(r.0))
    }
    fn from_raw_repr(r: WR) -> Result<Self, PrimeFieldDecodingError> {
        Ok(W(r.0))
    }
    fn into_repr(&self) -> WR {
        WR(self.0)
    }
    fn into_raw_repr(&self) -> WR {
        WR(self.0)
    }
    fn char() -> WR {
        WR([u64::MAX; 4])
    }
    const NUM_BITS: u32 = 256;
    const CAPACITY: u32 = 255;
    fn multiplicative_generator() -> Self {
        unimplemented!()
    }
    const S: u32 = 1;
    fn root_of_unity() -> Self {
        unimplemented!()
    }
}
impl AsRef<[u64]> for WR {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl AsMut<[u64]> for WR {
    fn as_mut(&mut self) -> &mut [u64] {
        &mut self.0
    }
}
impl From<u64> for WR {
    fn from(v: u64) -> Self {
        WR([v, 0, 0, 0])
    }
}
impl PrimeFieldRepr for WR {
    fn sub_noborrow(&mut self, _: &Self) {
        unimplemented!()
    }
    fn add_nocarry(&mut self, _: &Self) {
        unimplemented!()
    }
    fn num_bits(&self) -> u32 {
        for i in (0..4).rev() {
            if self.0[i] != 0 {
                return 64 * i as u32 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn is_even(&self) -> bool {
        !self.is_odd()
    }
    fn div2(&mut self) {
        self.shr(1)
    }
    fn shr(&mut self, n: u32) {
        for _ in 0..n {
            let mut c = 0;
            for i in (0..4).rev() {
                let t = self.0[i] << 63;
                self.0[i] = self.0[i] >> 1 | c;
                c = t;
            }
        }
    }
    fn mul2(&mut self) {
        self.shl(1)
    }
    fn shl(&mut self, n: u32) {
        for _ in 0..n {
            let mut c = 0;
            for i in 0..4 {
                let t = self.0[i] >> 63;
                self.0[i] = self.0[i] << 1 | c;
                c = t;
            }
        }
    }
    fn write_be<X: Write>(&self, mut w: X) -> io::Result<()> {
        for i in (0..4).rev() {
            w.write_all(&self.0[i].to_be_bytes())?;
        }
        Ok(())
    }
    fn read_be<X: Read>(&mut self, mut r: X) -> io::Result<()> {
        for i in (0..4).rev() {
            let mut b = [0; 8];
            r.read_exact(&mut b)?;
            self.0[i] = u64::from_be_bytes(b);
        }
        Ok(())
    }
    fn write_le<X: Write>(&self, mut w: X) -> io::Result<()> {
        for i in 0..4 {
            w.write_all(&self.0[i].to_le_bytes())?;
        }
        Ok(())
    }
    fn read_le<X: Read>(&mut self, mut r: X) -> io::Result<()> {
        for i in 0..4 {
            let mut b = [0; 8];
            r.read_exact(&mut b)?;
            self.0[i] = u64::from_le_bytes(b);
        }
        Ok(())
    }
}

#[derive(Clone)]
pub struct WideParams<const P: u64> {
    pub g: EdwardsPoint<S<P>>,
    pub d: u64,
}
impl<const P: u64> JubJubParams for WideParams<P> {
    type Fr = S<P>;
    type Fs = W;
    fn edwards_g(&self) -> &EdwardsPoint<S<P>> {
        &self.g
    }
    fn edwards_d(&self) -> Num<S<P>> {
        Num(S::k(self.d))
    }
    fn montgomery_a(&self) -> Num<S<P>> {
        unimplemented!()
    }
    fn montgomery_b(&self) -> Num<S<P>> {
        unimplemented!()
    }
    fn montgomery_u(&self) -> Num<S<P>> {
        unimplemented!()
    }
}
impl From<W> for WR {
    fn from(v: W) -> Self {
        WR(v.0)
    }
}
