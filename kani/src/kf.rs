//! Field types whose elements *are* their canonical representatives.
use ff::{Field, LegendreSymbol, PrimeField, PrimeFieldDecodingError, PrimeFieldRepr, SqrtField};
use std::cmp::Ordering;
use std::fmt;
use std::io::{self, Read, Write};

/// order of the bn256 scalar field
pub const M4: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct R4(pub [u64; 4]);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct F4(pub [u64; 4]);

pub fn less(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
pub fn sub4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(br as u64);
        r[i] = y;
        br = b1 | b2;
    }
    (r, br)
}
fn add4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut c = false;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (y, c2) = x.overflowing_add(c as u64);
        r[i] = y;
        c = c1 | c2;
    }
    r
}
/// p - x for x != 0, 0 for 0
pub fn neg4(a: &[u64; 4]) -> [u64; 4] {
    if *a == [0; 4] {
        *a
    } else {
        sub4(&M4, a).0
    }
}

/// an element of a prime field below 2^32, represented in as many bytes as its order needs
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct R1<const P: u64>(pub [u64; 1]);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct F1<const P: u64>(pub u64);

impl<const P: u64> Default for R1<P> {
    fn default() -> Self {
        R1([0])
    }
}
const fn nbits(p: u64) -> u32 {
    64 - p.leading_zeros()
}

macro_rules! common {
    ([$($g:tt)*] $f:ty, $r:ty) => {
        impl<$($g)*> fmt::Display for $f { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(self, f) } }
        impl<$($g)*> fmt::Display for $r { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(self, f) } }
        impl<$($g)*> rand::Rand for $f { fn rand<G: rand::Rng>(_: &mut G) -> Self { unimplemented!() } }
        impl<$($g)*> rand::Rand for $r { fn rand<G: rand::Rng>(_: &mut G) -> Self { unimplemented!() } }
        impl<$($g)*> PartialOrd for $r { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl<$($g)*> Ord for $r {
            fn cmp(&self, o: &Self) -> Ordering {
                let n = self.0.len();
                let mut i = n;
                while i > 0 {
                    i -= 1;
                    if self.0[i] != o.0[i] {
                        return if self.0[i] < o.0[i] { Ordering::Less } else { Ordering::Greater };
                    }
                }
                Ordering::Equal
            }
        }
        impl<$($g)*> AsRef<[u64]> for $r { fn as_ref(&self) -> &[u64] { &self.0 } }
        impl<$($g)*> AsMut<[u64]> for $r { fn as_mut(&mut self) -> &mut [u64] { &mut self.0 } }
        impl<$($g)*> From<$f> for $r { fn from(f: $f) -> Self { f.into_repr() } }
        impl<$($g)*> SqrtField for $f {
            fn legendre(&self) -> LegendreSymbol { unimplemented!() }
            fn sqrt(&self) -> Option<Self> { unimplemented!() }
        }
    };
}
common!([] F4, R4);
common!([const P: u64] F1<P>, R1<P>);

impl From<u64> for R4 {
    fn from(v: u64) -> Self {
        R4([v, 0, 0, 0])
    }
}
impl<const P: u64> From<u64> for R1<P> {
    fn from(v: u64) -> Self {
        R1([v])
    }
}

impl Field for F4 {
    fn zero() -> Self {
        F4([0; 4])
    }
    fn one() -> Self {
        F4([1, 0, 0, 0])
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn square(&mut self) {
        unimplemented!()
    }
    fn double(&mut self) {
        let o = *self;
        self.add_assign(&o)
    }
    fn negate(&mut self) {
        self.0 = neg4(&self.0)
    }
    fn add_assign(&mut self, o: &Self) {
        let s = add4(&self.0, &o.0);
        self.0 = if less(&s, &M4) { s } else { sub4(&s, &M4).0 };
    }
    fn sub_assign(&mut self, o: &Self) {
        let mut n = *o;
        n.negate();
        self.add_assign(&n);
    }
    fn mul_assign(&mut self, _: &Self) {
        unimplemented!()
    }
    fn inverse(&self) -> Option<Self> {
        unimplemented!()
    }
    fn frobenius_map(&mut self, _: usize) {}
}
impl<const P: u64> Field for F1<P> {
    fn zero() -> Self {
        F1(0)
    }
    fn one() -> Self {
        F1(1)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn square(&mut self) {
        self.0 = self.0 * self.0 % P
    }
    fn double(&mut self) {
        self.0 = self.0 * 2 % P
    }
    fn negate(&mut self) {
        if self.0 != 0 {
            self.0 = P - self.0
        }
    }
    fn add_assign(&mut self, o: &Self) {
        self.0 = (self.0 + o.0) % P
    }
    fn sub_assign(&mut self, o: &Self) {
        self.0 = (self.0 + P - o.0) % P
    }
    fn mul_assign(&mut self, o: &Self) {
        self.0 = self.0 * o.0 % P
    }
    fn inverse(&self) -> Option<Self> {
        unimplemented!()
    }
    fn frobenius_map(&mut self, _: usize) {}
}
impl PrimeField for F4 {
    type Repr = R4;
    fn from_repr(r: R4) -> Result<Self, PrimeFieldDecodingError> {
        if less(&r.0, &M4) {
            Ok(F4(r.0))
        } else {
            Err(PrimeFieldDecodingError::NotInField(String::new()))
        }
    }
    // the raw (Montgomery-like) representation differs from the canonical one: here it is -x
    fn from_raw_repr(r: R4) -> Result<Self, PrimeFieldDecodingError> {
        Self::from_repr(r).map(|x| F4(neg4(&x.0)))
    }
    fn into_repr(&self) -> R4 {
        R4(self.0)
    }
    fn into_raw_repr(&self) -> R4 {
        R4(neg4(&self.0))
    }
    fn char() -> R4 {
        R4(M4)
    }
    const NUM_BITS: u32 = 254;
    const CAPACITY: u32 = 253;
    fn multiplicative_generator() -> Self {
        F4([7, 0, 0, 0])
    }
    const S: u32 = 28;
    fn root_of_unity() -> Self {
        unimplemented!()
    }
}
impl<const P: u64> PrimeField for F1<P> {
    type Repr = R1<P>;
    fn from_repr(r: R1<P>) -> Result<Self, PrimeFieldDecodingError> {
        if r.0[0] < P {
            Ok(F1(r.0[0]))
        } else {
            Err(PrimeFieldDecodingError::NotInField(String::new()))
        }
    }
    fn from_raw_repr(r: R1<P>) -> Result<Self, PrimeFieldDecodingError> {
        Self::from_repr(r).map(|x| F1((P - x.0) % P))
    }
    fn into_repr(&self) -> R1<P> {
        R1([self.0])
    }
    fn into_raw_repr(&self) -> R1<P> {
        R1([(P - self.0) % P])
    }
    fn char() -> R1<P> {
        R1([P])
    }
    const NUM_BITS: u32 = nbits(P);
    const CAPACITY: u32 = nbits(P) - 1;
    fn multiplicative_generator() -> Self {
        unimplemented!()
    }
    const S: u32 = (P - 1).trailing_zeros();
    fn root_of_unity() -> Self {
        unimplemented!()
    }
}

macro_rules! repr_rest {
    () => {
        fn is_zero(&self) -> bool {
            self.0.iter().all(|x| *x == 0)
        }
        fn is_odd(&self) -> bool {
            self.0[0] & 1 == 1
        }
        fn is_even(&self) -> bool {
            self.0[0] & 1 == 0
        }
        fn num_bits(&self) -> u32 {
            let mut i = self.0.len();
            while i > 0 {
                i -= 1;
                if self.0[i] != 0 {
                    return 64 * i as u32 + 64 - self.0[i].leading_zeros();
                }
            }
            0
        }
        fn div2(&mut self) {
            self.shr(1)
        }
        fn mul2(&mut self) {
            self.shl(1)
        }
        fn shr(&mut self, amt: u32) {
            for _ in 0..amt {
                let mut c = 0;
                for x in self.0.iter_mut().rev() {
                    let n = *x << 63;
                    *x = *x >> 1 | c;
                    c = n;
                }
            }
        }
        fn shl(&mut self, amt: u32) {
            for _ in 0..amt {
                let mut c = 0;
                for x in self.0.iter_mut() {
                    let n = *x >> 63;
                    *x = *x << 1 | c;
                    c = n;
                }
            }
        }
    };
}
impl PrimeFieldRepr for R4 {
    fn sub_noborrow(&mut self, o: &Self) {
        self.0 = sub4(&self.0, &o.0).0
    }
    fn add_nocarry(&mut self, o: &Self) {
        self.0 = add4(&self.0, &o.0)
    }
    repr_rest!();
}
impl<const P: u64> R1<P> {
    const BYTES: usize = ((nbits(P) + 7) / 8) as usize;
}
impl<const P: u64> PrimeFieldRepr for R1<P> {
    fn sub_noborrow(&mut self, o: &Self) {
        self.0[0] = self.0[0].wrapping_sub(o.0[0])
    }
    fn add_nocarry(&mut self, o: &Self) {
        self.0[0] = self.0[0].wrapping_add(o.0[0])
    }
    repr_rest!();
    fn write_be<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&self.0[0].to_be_bytes()[8 - Self::BYTES..])
    }
    fn read_be<Rd: Read>(&mut self, mut r: Rd) -> io::Result<()> {
        let mut b = [0u8; 8];
        r.read_exact(&mut b[8 - Self::BYTES..])?;
        self.0[0] = u64::from_be_bytes(b);
        Ok(())
    }
    fn write_le<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&self.0[0].to_le_bytes()[..Self::BYTES])
    }
    fn read_le<Rd: Read>(&mut self, mut r: Rd) -> io::Result<()> {
        let mut b = [0u8; 8];
        r.read_exact(&mut b[..Self::BYTES])?;
        self.0[0] = u64::from_le_bytes(b);
        Ok(())
    }
}

/// order of the subgroup of the curve over the bn256 scalar field: a 251-bit prime
pub const M4B: [u64; 4] = [0x677297dc392126f1, 0xab3eedb83920ee0a, 0x370a08b6d0302b0b, 0x060c89ce5c263405];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct R4b(pub [u64; 4]);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct F4b(pub [u64; 4]);
pub fn neg4b(a: &[u64; 4]) -> [u64; 4] {
    if *a == [0; 4] {
        *a
    } else {
        sub4(&M4B, a).0
    }
}
common!([] F4b, R4b);
impl From<u64> for R4b {
    fn from(v: u64) -> Self {
        R4b([v, 0, 0, 0])
    }
}
impl Field for F4b {
    fn zero() -> Self {
        F4b([0; 4])
    }
    fn one() -> Self {
        F4b([1, 0, 0, 0])
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn square(&mut self) {
        unimplemented!()
    }
    fn double(&mut self) {
        let o = *self;
        self.add_assign(&o)
    }
    fn negate(&mut self) {
        self.0 = neg4b(&self.0)
    }
    fn add_assign(&mut self, o: &Self) {
        let s = add4(&self.0, &o.0);
        self.0 = if less(&s, &M4B) { s } else { sub4(&s, &M4B).0 };
    }
    fn sub_assign(&mut self, o: &Self) {
        let mut n = *o;
        n.negate();
        self.add_assign(&n);
    }
    fn mul_assign(&mut self, _: &Self) {
        unimplemented!()
    }
    fn inverse(&self) -> Option<Self> {
        unimplemented!()
    }
    fn frobenius_map(&mut self, _: usize) {}
}
impl PrimeField for F4b {
    type Repr = R4b;
    fn from_repr(r: R4b) -> Result<Self, PrimeFieldDecodingError> {
        if less(&r.0, &M4B) {
            Ok(F4b(r.0))
        } else {
            Err(PrimeFieldDecodingError::NotInField(String::new()))
        }
    }
    // the raw (Montgomery-like) representation differs from the canonical one: here it is -x
    fn from_raw_repr(r: R4b) -> Result<Self, PrimeFieldDecodingError> {
        Self::from_repr(r).map(|x| F4b(neg4b(&x.0)))
    }
    fn into_repr(&self) -> R4b {
        R4b(self.0)
    }
    fn into_raw_repr(&self) -> R4b {
        R4b(neg4b(&self.0))
    }
    fn char() -> R4b {
        R4b(M4B)
    }
    const NUM_BITS: u32 = 251;
    const CAPACITY: u32 = 250;
    fn multiplicative_generator() -> Self {
        F4b([7, 0, 0, 0])
    }
    const S: u32 = 28;
    fn root_of_unity() -> Self {
        unimplemented!()
    }
}
impl PrimeFieldRepr for R4b {
    fn sub_noborrow(&mut self, o: &Self) {
        self.0 = sub4(&self.0, &o.0).0
    }
    fn add_nocarry(&mut self, o: &Self) {
        self.0 = add4(&self.0, &o.0)
    }
    repr_rest!();
}
