//! Big integers of at most 320 bits whose operations are the mathematical ones.  An operation that
//! would leave the bound fails with a message that starts with "harness bound".
#![allow(clippy::all)]
pub mod bigint {
    pub use crate::int::*;
    pub use crate::uint::*;
}
pub mod traits {
    pub use crate::t::*;
}
pub mod integer {
    pub use crate::t::Integer;
}
pub use crate::int::*;
pub use crate::t::*;
pub use crate::uint::*;

/// 0, or: only integers whose shortest base-256 representation has this many bytes are encoded as bytes
pub static mut LEN: usize = 0;
/// 0, or: only integers with this many digits are written as text
pub static mut DIGITS: usize = 0;
#[cfg(kani)]
fn limit(b: bool) {
    kani::assume(b)
}
#[cfg(not(kani))]
fn limit(b: bool) {
    if !b {
        println!("ASSUMPTION-VIOLATED");
        std::process::exit(3);
    }
}

mod t {
    pub trait Zero: Sized {
        fn zero() -> Self;
        fn is_zero(&self) -> bool;
    }
    pub trait One: Sized {
        fn one() -> Self;
    }
    pub trait Signed {
        fn is_negative(&self) -> bool;
        fn is_positive(&self) -> bool;
        fn abs(&self) -> Self;
    }
    pub trait ToPrimitive {
        fn to_u64(&self) -> Option<u64>;
        fn to_usize(&self) -> Option<usize> {
            self.to_u64().map(|x| x as usize)
        }
    }
    pub trait Integer: Sized {
        fn mod_floor(&self, o: &Self) -> Self;
        fn is_even(&self) -> bool;
        fn is_odd(&self) -> bool {
            !self.is_even()
        }
    }
    pub trait Num: Sized {
        type FromStrRadixErr;
        fn from_str_radix(s: &str, radix: u32) -> Result<Self, Self::FromStrRadixErr>;
    }
}

mod uint {
    use crate::t::*;
    use crate::{limit, DIGITS, LEN};
    use std::cmp::Ordering;
    use std::ops::*;
    pub const L: usize = 5;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
    pub struct BigUint(pub [u64; L]);
    #[derive(Debug, Clone, PartialEq)]
    pub struct ParseBigIntError;
    impl std::fmt::Display for ParseBigIntError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("invalid digit")
        }
    }
    impl std::error::Error for ParseBigIntError {}

    pub fn add(a: &BigUint, b: &BigUint) -> BigUint {
        let mut r = [0; L];
        let mut c = false;
        for i in 0..L {
            let (x, c1) = a.0[i].overflowing_add(b.0[i]);
            let (y, c2) = x.overflowing_add(c as u64);
            r[i] = y;
            c = c1 | c2;
        }
        assert!(!c, "harness bound: integer too large");
        BigUint(r)
    }
    pub fn sub(a: &BigUint, b: &BigUint) -> BigUint {
        let mut r = [0; L];
        let mut c = false;
        for i in 0..L {
            let (x, c1) = a.0[i].overflowing_sub(b.0[i]);
            let (y, c2) = x.overflowing_sub(c as u64);
            r[i] = y;
            c = c1 | c2;
        }
        assert!(!c, "attempt to subtract with overflow");
        BigUint(r)
    }
    fn small(a: &BigUint) -> bool {
        a.0[1] | a.0[2] | a.0[3] | a.0[4] == 0
    }
    pub fn rem(a: &BigUint, d: &BigUint) -> BigUint {
        assert!(!d.is_zero(), "attempt to divide by zero");
        if small(a) && small(d) {
            return BigUint([a.0[0] % d.0[0], 0, 0, 0, 0]);
        }
        // quotient below 16
        let d2 = add(d, d);
        let d4 = add(&d2, &d2);
        let d8 = add(&d4, &d4);
        assert!(*a < add(&d8, &d8), "harness bound: quotient of a wide division");
        let mut r = *a;
        if r >= d8 {
            r = sub(&r, &d8);
        }
        if r >= d4 {
            r = sub(&r, &d4);
        }
        if r >= d2 {
            r = sub(&r, &d2);
        }
        if r >= *d {
            r = sub(&r, d);
        }
        r
    }
    pub fn mul(a: &BigUint, b: &BigUint) -> BigUint {
        assert!(small(a) && small(b), "harness bound: wide multiplication");
        let p = a.0[0] as u128 * b.0[0] as u128;
        BigUint([p as u64, (p >> 64) as u64, 0, 0, 0])
    }
    pub fn div(a: &BigUint, b: &BigUint) -> BigUint {
        assert!(small(a) && small(b), "harness bound: wide division");
        BigUint([a.0[0] / b.0[0], 0, 0, 0, 0])
    }
    impl PartialOrd for BigUint {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for BigUint {
        fn cmp(&self, o: &Self) -> Ordering {
            let mut i = L;
            while i > 0 {
                i -= 1;
                if self.0[i] != o.0[i] {
                    return if self.0[i] < o.0[i] { Ordering::Less } else { Ordering::Greater };
                }
            }
            Ordering::Equal
        }
    }
    impl Zero for BigUint {
        fn zero() -> Self {
            BigUint([0; L])
        }
        fn is_zero(&self) -> bool {
            self.0 == [0; L]
        }
    }
    impl One for BigUint {
        fn one() -> Self {
            BigUint([1, 0, 0, 0, 0])
        }
    }
    impl ToPrimitive for BigUint {
        fn to_u64(&self) -> Option<u64> {
            if small(self) {
                Some(self.0[0])
            } else {
                None
            }
        }
    }
    impl Integer for BigUint {
        fn mod_floor(&self, o: &Self) -> Self {
            rem(self, o)
        }
        fn is_even(&self) -> bool {
            self.0[0] & 1 == 0
        }
    }
    macro_rules! from { ($($t:ty),*) => { $(impl From<$t> for BigUint { fn from(v: $t) -> Self { BigUint([v as u64, 0, 0, 0, 0]) } })* } }
    from!(u8, u16, u32, u64, usize);
    macro_rules! ops {
        ($t:ty; $($tr:ident $f:ident $ta:ident $fa:ident $g:path;)*) => { $(
            impl $tr<$t> for $t { type Output = $t; fn $f(self, o: $t) -> $t { $g(&self, &o) } }
            impl<'a> $tr<&'a $t> for $t { type Output = $t; fn $f(self, o: &'a $t) -> $t { $g(&self, o) } }
            impl<'a> $tr<$t> for &'a $t { type Output = $t; fn $f(self, o: $t) -> $t { $g(self, &o) } }
            impl<'a, 'b> $tr<&'b $t> for &'a $t { type Output = $t; fn $f(self, o: &'b $t) -> $t { $g(self, o) } }
            impl $ta<$t> for $t { fn $fa(&mut self, o: $t) { *self = $g(self, &o) } }
            impl<'a> $ta<&'a $t> for $t { fn $fa(&mut self, o: &'a $t) { *self = $g(self, o) } }
        )* };
    }
    pub(crate) use ops;
    ops!(BigUint; Add add AddAssign add_assign add; Sub sub SubAssign sub_assign sub; Rem rem RemAssign rem_assign rem; Mul mul MulAssign mul_assign mul; Div div DivAssign div_assign div;);

    impl BigUint {
        pub fn from_bytes_be(b: &[u8]) -> Self {
            let n = b.len();
            let mut r = [0u64; L];
            for i in 0..n {
                let j = n - 1 - i; // weight 256^i
                if i < 8 * L {
                    r[i / 8] |= (b[j] as u64) << (8 * (i % 8));
                } else {
                    assert!(b[j] == 0, "harness bound: integer too large");
                }
            }
            BigUint(r)
        }
        pub fn from_bytes_le(b: &[u8]) -> Self {
            let mut r = [0u64; L];
            for i in 0..b.len() {
                if i < 8 * L {
                    r[i / 8] |= (b[i] as u64) << (8 * (i % 8));
                } else {
                    assert!(b[i] == 0, "harness bound: integer too large");
                }
            }
            BigUint(r)
        }
        fn byte(&self, i: usize) -> u8 {
            (self.0[i / 8] >> (8 * (i % 8))) as u8
        }
        /// length of the shortest base-256 representation (one byte for zero)
        fn nbytes(&self) -> usize {
            let len = unsafe { LEN };
            if len == 0 {
                let mut n = 1;
                for i in 0..8 * L {
                    if self.byte(i) != 0 {
                        n = i + 1;
                    }
                }
                n
            } else {
                // the harness looks at integers of this length only
                let mut fits = len == 1 || self.byte(len - 1) != 0;
                for i in len..8 * L {
                    fits = fits && self.byte(i) == 0;
                }
                limit(fits);
                len
            }
        }
        pub fn to_bytes_le(&self) -> Vec<u8> {
            let n = self.nbytes();
            let mut v = vec![0u8; n];
            for i in 0..n {
                v[i] = self.byte(i);
            }
            v
        }
        pub fn to_bytes_be(&self) -> Vec<u8> {
            let n = self.nbytes();
            let mut v = vec![0u8; n];
            for i in 0..n {
                v[n - 1 - i] = self.byte(i);
            }
            v
        }
        pub fn bits(&self) -> usize {
            let mut i = L;
            while i > 0 {
                i -= 1;
                if self.0[i] != 0 {
                    return 64 * i + 64 - self.0[i].leading_zeros() as usize;
                }
            }
            0
        }
        pub fn parse_bytes(b: &[u8], radix: u32) -> Option<Self> {
            std::str::from_utf8(b).ok().and_then(|s| <BigUint as crate::t::Num>::from_str_radix(s, radix).ok())
        }
        pub fn to_str_radix(&self, radix: u32) -> String {
            assert!(small(self), "harness bound: text of a wide integer");
            let len = unsafe { DIGITS };
            let n = if len == 0 {
                let mut n = 1;
                let mut v = self.0[0] / radix as u64;
                while v > 0 {
                    n += 1;
                    v /= radix as u64;
                }
                n
            } else {
                len
            };
            let mut s = vec![0u8; n];
            let mut v = self.0[0];
            for i in 0..n {
                let c = (v % radix as u64) as u8;
                s[n - 1 - i] = if c < 10 { b'0' + c } else { b'a' + c - 10 };
                v /= radix as u64;
            }
            limit(v == 0 && (n == 1 || s[0] != b'0'));
            unsafe { String::from_utf8_unchecked(s) }
        }
        #[allow(clippy::inherent_to_string_shadow_display)]
        pub fn to_string(&self) -> String {
            self.to_str_radix(10)
        }
    }
    impl crate::t::Num for BigUint {
        type FromStrRadixErr = ParseBigIntError;
        fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigIntError> {
            let b = s.as_bytes();
            let b = if b.len() > 0 && b[0] == b'+' && !(b.len() > 1 && b[1] == b'+') { &b[1..] } else { b };
            if b.len() == 0 || b[0] == b'_' {
                return Err(ParseBigIntError);
            }
            let mut v = 0u64;
            for i in 0..b.len() {
                if b[i] == b'_' {
                    continue;
                }
                let d = match (b[i] as char).to_digit(radix) {
                    Some(d) => d as u64,
                    None => return Err(ParseBigIntError),
                };
                assert!(v < u64::MAX / 64, "harness bound: text of a wide integer");
                v = v * radix as u64 + d;
            }
            Ok(BigUint([v, 0, 0, 0, 0]))
        }
    }
    impl std::str::FromStr for BigUint {
        type Err = ParseBigIntError;
        fn from_str(s: &str) -> Result<Self, ParseBigIntError> {
            <BigUint as crate::t::Num>::from_str_radix(s, 10)
        }
    }
    impl std::fmt::Display for BigUint {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str(&self.to_str_radix(10))
        }
    }
    pub trait ToBigUint {
        fn to_biguint(&self) -> Option<BigUint>;
    }
    impl ToBigUint for BigUint {
        fn to_biguint(&self) -> Option<BigUint> {
            Some(*self)
        }
    }
}

mod int {
    use crate::t::*;
    use crate::uint::{ops, BigUint, ToBigUint};
    use std::cmp::Ordering;
    use std::ops::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Sign {
        Minus,
        NoSign,
        Plus,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct BigInt {
        neg: bool,
        mag: BigUint,
    }
    fn mk(neg: bool, mag: BigUint) -> BigInt {
        BigInt { neg: neg && !mag.is_zero(), mag }
    }
    fn addi(a: &BigInt, b: &BigInt) -> BigInt {
        if a.neg == b.neg {
            mk(a.neg, crate::uint::add(&a.mag, &b.mag))
        } else if a.mag >= b.mag {
            mk(a.neg, crate::uint::sub(&a.mag, &b.mag))
        } else {
            mk(b.neg, crate::uint::sub(&b.mag, &a.mag))
        }
    }
    fn subi(a: &BigInt, b: &BigInt) -> BigInt {
        addi(a, &mk(!b.neg, b.mag))
    }
    fn remi(a: &BigInt, b: &BigInt) -> BigInt {
        mk(a.neg, crate::uint::rem(&a.mag, &b.mag))
    }
    fn muli(a: &BigInt, b: &BigInt) -> BigInt {
        mk(a.neg != b.neg, crate::uint::mul(&a.mag, &b.mag))
    }
    ops!(BigInt; Add add AddAssign add_assign addi; Sub sub SubAssign sub_assign subi; Rem rem RemAssign rem_assign remi; Mul mul MulAssign mul_assign muli;);
    impl Neg for BigInt {
        type Output = BigInt;
        fn neg(self) -> BigInt {
            mk(!self.neg, self.mag)
        }
    }
    impl<'a> Neg for &'a BigInt {
        type Output = BigInt;
        fn neg(self) -> BigInt {
            mk(!self.neg, self.mag)
        }
    }
    impl PartialOrd for BigInt {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for BigInt {
        fn cmp(&self, o: &Self) -> Ordering {
            match (self.neg, o.neg) {
                (true, false) => Ordering::Less,
                (false, true) => Ordering::Greater,
                (false, false) => self.mag.cmp(&o.mag),
                (true, true) => o.mag.cmp(&self.mag),
            }
        }
    }
    impl Zero for BigInt {
        fn zero() -> Self {
            mk(false, BigUint::zero())
        }
        fn is_zero(&self) -> bool {
            self.mag.is_zero()
        }
    }
    impl One for BigInt {
        fn one() -> Self {
            mk(false, BigUint::one())
        }
    }
    impl Signed for BigInt {
        fn is_negative(&self) -> bool {
            self.neg
        }
        fn is_positive(&self) -> bool {
            !self.neg && !self.mag.is_zero()
        }
        fn abs(&self) -> Self {
            mk(false, self.mag)
        }
    }
    impl Integer for BigInt {
        fn mod_floor(&self, o: &Self) -> Self {
            let r = remi(self, o);
            if !r.mag.is_zero() && r.neg != o.neg {
                addi(&r, o)
            } else {
                r
            }
        }
        fn is_even(&self) -> bool {
            self.mag.is_even()
        }
    }
    impl From<i64> for BigInt {
        fn from(v: i64) -> Self {
            mk(v < 0, BigUint::from(v.unsigned_abs()))
        }
    }
    impl From<i32> for BigInt {
        fn from(v: i32) -> Self {
            BigInt::from(v as i64)
        }
    }
    impl From<u64> for BigInt {
        fn from(v: u64) -> Self {
            mk(false, BigUint::from(v))
        }
    }
    impl From<BigUint> for BigInt {
        fn from(v: BigUint) -> Self {
            mk(false, v)
        }
    }
    impl BigInt {
        pub fn from_biguint(s: Sign, v: BigUint) -> Self {
            mk(s == Sign::Minus, if s == Sign::NoSign { BigUint::zero() } else { v })
        }
        pub fn from_bytes_be(s: Sign, b: &[u8]) -> Self {
            Self::from_biguint(s, BigUint::from_bytes_be(b))
        }
        pub fn to_biguint(&self) -> Option<BigUint> {
            if self.neg {
                None
            } else {
                Some(self.mag)
            }
        }
        pub fn sign(&self) -> Sign {
            if self.neg {
                Sign::Minus
            } else if self.mag.is_zero() {
                Sign::NoSign
            } else {
                Sign::Plus
            }
        }
        pub fn magnitude(&self) -> &BigUint {
            &self.mag
        }
        pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
            (self.sign(), self.mag.to_bytes_be())
        }
    }
    impl ToBigUint for BigInt {
        fn to_biguint(&self) -> Option<BigUint> {
            BigInt::to_biguint(self)
        }
    }
    pub trait ToBigInt {
        fn to_bigint(&self) -> Option<BigInt>;
    }
    impl ToBigInt for BigInt {
        fn to_bigint(&self) -> Option<BigInt> {
            Some(*self)
        }
    }
    impl ToBigInt for BigUint {
        fn to_bigint(&self) -> Option<BigInt> {
            Some(mk(false, *self))
        }
    }
}
