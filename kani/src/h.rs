//! The harnesses.  Names: `cNN_ok_*` must verify with their end reachable; `cNN_no_*` must panic on
//! every path (their end must be unreachable).
use crate::kf::*;
use crate::nd::*;
use crate::tok::{Er, Tok};
use blake2_rfc::blake2s::Blake2s;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::core::seedbox::SeedboxBlake2;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::helpers::groth16::prover::ProofData;
use fawkes_crypto::helpers::groth16::verifier::TruncatedVerifyingKeyData;
use fawkes_crypto::helpers::groth16::{G1PointData, G2PointData};
use fawkes_crypto::native::num::Num;
use num::bigint::{BigInt, BigUint};
use rand::Rng;
use serde::de::value::{SeqDeserializer, StrDeserializer};
use serde::de::{Deserialize, IntoDeserializer};
use serde::ser::Serialize;
use typenum::{U0, U1, U2, U3};

type N4 = Num<F4>;
type N1<const P: u64> = Num<F1<P>>;

fn el4() -> [u64; 4] {
    let x: [u64; 4] = any();
    assume(less(&x, &M4));
    x
}

harnesses! {
    // ------------------------------------------------------------------ C15
    fn c15_ok_from_u64() {
        let n: u64 = any();
        let x: N4 = Num::from(n);
        assert!(x.0 .0 == [n, 0, 0, 0]);
        reached!();
    }
    fn c15_ok_from_u32() {
        let n: u32 = any();
        let x: N4 = Num::from(n);
        assert!(x.0 .0 == [n as u64, 0, 0, 0]);
        reached!();
    }
    fn c15_ok_from_i64() {
        let n: i64 = any();
        let x: N4 = Num::from(n);
        let m = [n.unsigned_abs(), 0, 0, 0];
        assert!(x.0 .0 == if n < 0 { neg4(&m) } else { m });
        reached!();
    }
    fn c15_ok_from_i32() {
        let n: i32 = any();
        let x: N4 = Num::from(n);
        let m = [n.unsigned_abs() as u64, 0, 0, 0];
        assert!(x.0 .0 == if n < 0 { neg4(&m) } else { m });
        reached!();
    }
    fn c15_ok_from_bool() {
        let b: bool = any();
        let x: N4 = Num::from(b);
        assert!(x.0 .0 == [b as u64, 0, 0, 0]);
        assert!(x.into_bool() == b);
        reached!();
    }
    #[kani::should_panic]
    fn c15_no_into_bool() {
        let x = el4();
        assume(x[0] > 1 || x[1] != 0 || x[2] != 0 || x[3] != 0);
        let _ = Num(F4(x)).into_bool();
        reached!();
    }
    #[kani::unwind(8)]
    fn c15_ok_into_u64() {
        let x = el4();
        assume(x[1] == 0 && x[2] == 0 && x[3] == 0);
        let n: u64 = Num(F4(x)).into();
        assert!(n == x[0]);
        reached!();
    }
    #[kani::should_panic]
    #[kani::unwind(8)]
    fn c15_no_into_u64() {
        let x = el4();
        assume(x[1] != 0 || x[2] != 0 || x[3] != 0);
        let _: u64 = Num(F4(x)).into();
        reached!();
    }
    fn c15_ok_parity() {
        let x = el4();
        assert!(Num(F4(x)).is_odd() == (x[0] & 1 == 1));
        assert!(Num(F4(x)).is_even() == (x[0] & 1 == 0));
        reached!();
    }
    #[kani::unwind(258)]
    fn c15_ok_bits_le() {
        let x = el4();
        let mut it = Num(F4(x)).iterbit_le();
        for i in 0..256 {
            assert!(it.next() == Some(x[i / 64] >> (i % 64) & 1 == 1));
        }
        assert!(it.next() == None);
        reached!();
    }
    #[kani::unwind(258)]
    fn c15_ok_bits_be() {
        let x = el4();
        let mut it = Num(F4(x)).iterbit_be();
        for i in 0..256 {
            let j = 255 - i;
            assert!(it.next() == Some(x[j / 64] >> (j % 64) & 1 == 1));
        }
        assert!(it.next() == None);
        reached!();
    }
    #[kani::unwind(34)]
    fn c15_ok_bytes_be() {
        let x = el4();
        let b = Num(F4(x)).into_binary_be();
        assert!(b.len() == 32);
        for i in 0..32 {
            let j = 31 - i;
            assert!(b[i] == (x[j / 8] >> (8 * (j % 8))) as u8);
        }
        reached!();
    }
    #[kani::unwind(42)]
    fn c15_ok_into_biguint() {
        let x = el4();
        let v: BigUint = Num(F4(x)).into();
        assert!(v == BigUint([x[0], x[1], x[2], x[3], 0]));
        reached!();
    }
    // ------------------------------------------------------------------ C16
    #[kani::unwind(34)]
    fn c16_ok_borsh_write() {
        let x = el4();
        let mut buf = [0u8; 40];
        let rest = {
            let mut w = &mut buf[..];
            BorshSerialize::serialize(&Num(F4(x)), &mut w).unwrap();
            w.len()
        };
        assert!(rest == 8);
        for i in 0..32 {
            assert!(buf[i] == (x[i / 8] >> (8 * (i % 8))) as u8);
        }
        reached!();
    }
    #[kani::unwind(34)]
    fn c16_ok_borsh_read() {
        let b: [u8; 35] = any();
        let mut x = [0u64; 4];
        for i in 0..32 {
            x[i / 8] |= (b[i] as u64) << (8 * (i % 8));
        }
        let mut s = &b[..];
        let r = <N4 as BorshDeserialize>::deserialize(&mut s);
        assert!(r.is_ok() == less(&x, &M4));
        if let Ok(n) = r {
            assert!(n.0 .0 == x);
            assert!(s.len() == 3);
            reached!();
        }
    }
    #[kani::unwind(34)]
    fn c16_ok_borsh_short() {
        let b: [u8; 32] = any();
        let n: usize = any();
        assume(n < 32);
        let mut s = &b[..n];
        let r = <N4 as BorshDeserialize>::deserialize(&mut s);
        assert!(r.is_err());
        reached!();
    }
    // ------------------------------------------------------------------ C17
    #[kani::unwind(8)]
    fn c17_ok_collect() {
        let v: [u8; 3] = any();
        let s: SizedVec<u8, U3> = v.iter().cloned().collect();
        assert!(s.0.len() == 3 && s[0] == v[0] && s[1] == v[1] && s[2] == v[2]);
        let mut it = s.iter();
        for i in 0..3 {
            assert!(it.next() == Some(&v[i]));
        }
        assert!(it.next() == None);
        reached!();
    }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c17_no_collect() {
        let v: [u8; 5] = any();
        let n: usize = any();
        assume(n <= 5 && n != 3);
        let _: SizedVec<u8, U3> = v[..n].iter().cloned().collect();
        reached!();
    }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c17_no_collect_zero() {
        let v: [u8; 3] = any();
        let n: usize = any();
        assume(n <= 3 && n != 0);
        let _: SizedVec<u8, U0> = v[..n].iter().cloned().collect();
        reached!();
    }
    #[kani::unwind(8)]
    fn c17_ok_empty() {
        let s: SizedVec<u8, U0> = std::iter::empty().collect();
        assert!(s.0.len() == 0);
        reached!();
    }
    #[kani::unwind(8)]
    fn c17_ok_deserialize() {
        let v: [u8; 5] = any();
        let n: usize = any();
        assume(n <= 5);
        let de: SeqDeserializer<_, Er> = SeqDeserializer::new(v[..n].iter().cloned());
        let r = <SizedVec<u8, U2> as Deserialize>::deserialize(de);
        assert!(r.is_ok() == (n == 2));
        if let Ok(s) = r {
            assert!(s.0.len() == 2 && s[0] == v[0] && s[1] == v[1]);
            reached!();
        }
    }
    #[kani::unwind(8)]
    fn c17_ok_serialize() {
        let v: [u8; 3] = any();
        let s: SizedVec<u8, U3> = v.iter().cloned().collect();
        let mut t = Tok::default();
        assert!(s.serialize(&mut t).is_ok());
        assert!(t.ints.len() == 3 && t.announced == Some(3));
        for i in 0..3 {
            assert!(t.ints[i] == v[i] as u64);
        }
        reached!();
    }
    #[kani::unwind(8)]
    fn c17_ok_mutate() {
        let v: [u8; 3] = any();
        let x: u8 = any();
        let k: usize = any();
        assume(k < 3);
        let mut s: SizedVec<u8, U3> = v.iter().cloned().collect();
        s[k] = x;
        for i in 0..3 {
            assert!(s[i] == if i == k { x } else { v[i] });
        }
        for e in s.iter_mut() {
            *e ^= 255;
        }
        assert!(s.0.len() == 3);
        for i in 0..3 {
            assert!(s[i] == 255 ^ if i == k { x } else { v[i] });
        }
        reached!();
    }
    // ------------------------------------------------------------------ C24
    // ------------------------------------------------------------------ C25
    #[kani::unwind(58)]
    fn c25_ok_plain() {
        oracle();
        let mut r = SeedboxBlake2::new();
        stream(&mut r, None, 17);
        reached!();
    }
    // any position in the stream, two blocks from there (needs the hook in the crate)
    #[kani::unwind(58)]
    fn c25_ok_far() {
        oracle();
        let at: u64 = any();
        assume(at < u64::MAX - 4);
        let mut r = SeedboxBlake2::new();
        skip(&mut r, at);
        stream_at(&mut r, None, at, 10);
        reached!();
    }
    #[kani::unwind(58)]
    fn c25_ok_far_salted() {
        oracle();
        let at: u64 = any();
        assume(at < u64::MAX - 4);
        let salt: [u8; 2] = any();
        let mut r = SeedboxBlake2::new_with_salt(&salt);
        let mut h = Blake2s::new(32);
        h.update(&salt);
        let mut s = [0u8; 32];
        s.copy_from_slice(h.finalize().as_ref());
        skip(&mut r, at);
        stream_at(&mut r, Some(s), at, 10);
        reached!();
    }
    // ---- harnesses with concrete parameters (lengths), linked in by the driver
    #[kani::unwind(42)]
    fn c15_ok_from_biguint() {
        from_biguint(param(0));
    }
    #[kani::unwind(42)]
    fn c15_ok_from_bigint() {
        from_bigint(param(0));
    }
    #[kani::unwind(42)]
    fn c15_ok_bytes_roundtrip() {
        bytes_roundtrip(param(0));
    }
    #[kani::unwind(42)]
    fn c15_ok_into_other() {
        into_other(param(0));
    }
    #[kani::unwind(42)]
    fn c15_ok_from_other() {
        from_other(param(0));
    }
    #[kani::unwind(42)]
    fn c15_ok_other_narrow() {
        other_narrow(param(0));
    }
    #[kani::unwind(42)]
    fn c15_ok_other_wide() {
        other_wide(param(0));
    }
    #[kani::unwind(42)]
    fn c15_ok_from_bytes() {
        from_bytes(param(0), param(1));
    }
    #[kani::unwind(12)]
    fn c16_ok_text_write() {
        text_write(param(0));
    }
    #[kani::unwind(42)]
    fn c16_ok_text_read() {
        text_read(param(0), param(1));
    }
    #[kani::unwind(12)]
    fn c24_ok_g1_place() {
        g1_place(param(0));
    }
    #[kani::unwind(12)]
    fn c24_ok_g2_place() {
        g2_place(param(0));
    }
    #[kani::unwind(34)]
    fn c24_ok_g1_bytes() {
        g1_bytes(param(0));
    }
    #[kani::unwind(34)]
    fn c24_ok_g2_bytes() {
        g2_bytes(param(0));
    }
    #[kani::unwind(34)]
    fn c24_ok_proof() {
        proof(param(0));
    }
    #[kani::unwind(58)]
    fn c25_ok_from_seed() {
        from_seed(param(0), param(1));
    }
    #[kani::unwind(58)]
    fn c25_ok_salted() {
        salted(param(0));
    }
}

fn digits(n: usize) {
    unsafe { num::DIGITS = n }
}
pub fn text_write(d: usize) {
    digits(d);
    let v: u64 = any();
    assume(v < 251);
    let s = Num(F1::<251>(v)).to_string();
    check_dec(s.as_bytes(), v);
    reached!();
}
pub fn text_read(l: usize, k: usize) {
    len(l);
    let b: [u8; 4] = any();
    let mut v = 0;
    let mut fine = k > 0;
    for i in 0..k {
        // the sign and the separator the integer parser knows are left out
        assume(b[i] < 128 && b[i] != b'+' && b[i] != b'_');
        let d = b[i].wrapping_sub(b'0');
        fine = fine && d < 10;
        v = v * 10 + d as u64;
    }
    let s = unsafe { core::str::from_utf8_unchecked(&b[..k]) };
    let de: StrDeserializer<Er> = s.into_deserializer();
    let r = <N1<4093> as Deserialize>::deserialize(de);
    assert!(r.is_ok() == (fine && v < 4093));
    if let Ok(n) = r {
        assert!(n.0 .0 == v);
    }
    reached!();
}
pub fn g1_place(d: usize) {
    digits(d);
    let b: [u8; 2] = any();
    assume(b[0] < 251 && b[1] < 251);
    let p = <G1PointData<F1<251>> as BorshDeserialize>::deserialize(&mut &b[..]).unwrap();
    let mut t = Tok::default();
    assert!(Serialize::serialize(&p, &mut t).is_ok());
    assert!(t.strs.len() == 2);
    check_dec(t.strs[0].as_bytes(), b[0] as u64);
    check_dec(t.strs[1].as_bytes(), b[1] as u64);
    reached!();
}
pub fn g2_place(d: usize) {
    digits(d);
    // data lists the imaginary part first, the encoding the real part
    let b: [u8; 4] = any();
    assume(b[0] < 251 && b[1] < 251 && b[2] < 251 && b[3] < 251);
    let p = <G2PointData<F1<251>> as BorshDeserialize>::deserialize(&mut &b[..]).unwrap();
    let mut t = Tok::default();
    assert!(Serialize::serialize(&p, &mut t).is_ok());
    assert!(t.strs.len() == 4);
    check_dec(t.strs[0].as_bytes(), b[1] as u64);
    check_dec(t.strs[1].as_bytes(), b[0] as u64);
    check_dec(t.strs[2].as_bytes(), b[3] as u64);
    check_dec(t.strs[3].as_bytes(), b[2] as u64);
    reached!();
}
pub fn g1_bytes(n: usize) {
    let b: [u8; 5] = any();
    let mut s = &b[..n];
    let r = <G1PointData<F1<65521>> as BorshDeserialize>::deserialize(&mut s);
    let w = |i: usize| b[2 * i] as u64 | (b[2 * i + 1] as u64) << 8;
    assert!(r.is_ok() == (n >= 4 && w(0) < 65521 && w(1) < 65521));
    if let Ok(p) = r {
        assert!(s.len() == n - 4);
        let mut o = Vec::with_capacity(8);
        assert!(p.serialize_b(&mut o));
        assert!(o.len() == 4 && o[0] == b[0] && o[1] == b[1] && o[2] == b[2] && o[3] == b[3]);
    }
    reached!();
}
pub fn proof(n: usize) {
    let b: [u8; 9] = any();
    let mut s = &b[..n];
    let r = <ProofData<F1<251>> as BorshDeserialize>::deserialize(&mut s);
    let mut fine = n >= 8;
    for i in 0..8 {
        fine = fine && b[i] < 251;
    }
    assert!(r.is_ok() == fine);
    if let Ok(p) = r {
        assert!(s.len() == n - 8);
        let mut o = Vec::with_capacity(16);
        assert!(p.serialize_b(&mut o));
        assert!(o.len() == 8);
        for i in 0..8 {
            assert!(o[i] == b[i]);
        }
        // a, b, c in this order
        let mut c = Vec::with_capacity(16);
        assert!(p.a.serialize_b(&mut c) && p.b.serialize_b(&mut c) && p.c.serialize_b(&mut c));
        assert!(c.len() == 8);
        for i in 0..8 {
            assert!(c[i] == b[i]);
        }
    }
    reached!();
}
pub fn g2_bytes(n: usize) {
    let b: [u8; 9] = any();
    let mut s = &b[..n];
    let r = <G2PointData<F1<65521>> as BorshDeserialize>::deserialize(&mut s);
    let w = |i: usize| (b[2 * i] as u64 | (b[2 * i + 1] as u64) << 8) < 65521;
    assert!(r.is_ok() == (n >= 8 && w(0) && w(1) && w(2) && w(3)));
    if let Ok(p) = r {
        assert!(s.len() == n - 8);
        let mut o = Vec::with_capacity(16);
        assert!(p.serialize_b(&mut o));
        assert!(o.len() == 8);
        for i in 0..8 {
            assert!(o[i] == b[i]);
        }
    }
    reached!();
}
pub fn from_seed(l: usize, n: usize) {
    len(l);
    oracle();
    let seed: [u8; 3] = any();
    let x: N1<65521> = Num::from_seed(&seed[..n]);
    let mut h = Blake2s::with_params(2, &[], &[], b"__fawkes");
    h.update(&seed[..n]);
    let d = h.finalize();
    let v = (d.as_ref()[0] as u64) << 8 | d.as_ref()[1] as u64;
    assert!(x.0 .0 == v % 65521);
    reached!();
}
pub fn salted(n: usize) {
    oracle();
    let salt: [u8; 4] = any();
    let mut r = SeedboxBlake2::new_with_salt(&salt[..n]);
    let mut h = Blake2s::new(32);
    h.update(&salt[..n]);
    let mut s = [0u8; 32];
    s.copy_from_slice(h.finalize().as_ref());
    stream(&mut r, Some(s), 9);
    reached!();
}
fn len(n: usize) {
    unsafe { num::LEN = n }
}
pub fn from_biguint(n: usize) {
    len(n);
    let x: [u64; 4] = any();
    let v: N4 = Num::from(BigUint([x[0], x[1], x[2], x[3], 0]));
    assert!(v.0 .0 == red4(x));
    reached!();
}
pub fn from_bigint(n: usize) {
    len(n);
    let x: [u64; 4] = any();
    let neg: bool = any();
    let m = BigInt::from(BigUint([x[0], x[1], x[2], x[3], 0]));
    let v: N4 = Num::from(if neg { -m } else { m });
    let r = red4(x);
    assert!(v.0 .0 == if neg { neg4(&r) } else { r });
    reached!();
}
pub fn from_bytes(n: usize, k: usize) {
    len(n);
    let b: [u8; 33] = any();
    if k == 33 {
        assume(b[0] == 0);
    }
    let v: N4 = Num::from_binary_be(&b[..k]);
    let mut x = [0u64; 4];
    for i in 0..32 {
        if i < k {
            x[i / 8] |= (b[k - 1 - i] as u64) << (8 * (i % 8));
        }
    }
    assert!(v.0 .0 == red4(x));
    reached!();
}
pub fn bytes_roundtrip(n: usize) {
    len(n);
    let x = el4();
    let v: N4 = Num::from_binary_be(&Num(F4(x)).into_binary_be());
    assert!(v.0 .0 == x);
    reached!();
}
pub fn other_narrow(n: usize) {
    len(n);
    let v: u64 = any();
    assume(v < 65537);
    let a: N1<4093> = Num(F1::<65537>(v)).into_other();
    let b: N1<4093> = Num::from_other(Num(F1::<65537>(v)));
    assert!(a.0 .0 == v % 4093);
    assert!(b.0 .0 == v % 4093);
    reached!();
}
pub fn other_wide(n: usize) {
    len(n);
    let v: u64 = any();
    assume(v < 65537);
    let a: N4 = Num(F1::<65537>(v)).into_other();
    let b: N4 = Num::from_other(Num(F1::<65537>(v)));
    assert!(a.0 .0 == [v, 0, 0, 0]);
    assert!(b.0 .0 == [v, 0, 0, 0]);
    reached!();
}
pub fn into_other(n: usize) {
    len(n);
    let x = el4();
    let a: Num<F4b> = Num(F4(x)).into_other();
    assert!(a.0 .0 == red4b(x));
    reached!();
}
pub fn from_other(n: usize) {
    len(n);
    let x = el4();
    let b: Num<F4b> = Num::from_other(Num(F4(x)));
    assert!(b.0 .0 == red4b(x));
    reached!();
}

/// a 256-bit integer reduced modulo the order
fn red4(x: [u64; 4]) -> [u64; 4] {
    let mut r = x;
    for _ in 0..5 {
        if !less(&r, &M4) {
            r = sub4(&r, &M4).0;
        }
    }
    r
}
/// likewise for the second field, for elements of the first (whose order is below nine times the other)
fn red4b(x: [u64; 4]) -> [u64; 4] {
    let d2 = double4(&M4B);
    let d4 = double4(&d2);
    let d8 = double4(&d4);
    let mut r = x;
    for d in [d8, d4, d2, M4B] {
        if !less(&r, &d) {
            r = sub4(&r, &d).0;
        }
    }
    r
}
fn double4(x: &[u64; 4]) -> [u64; 4] {
    [x[0] << 1, x[1] << 1 | x[0] >> 63, x[2] << 1 | x[1] >> 63, x[3] << 1 | x[2] >> 63]
}
fn oracle() {
    let d: [[u8; 32]; blake2_rfc::blake2s::CALLS] = any();
    unsafe {
        blake2_rfc::blake2s::DIGESTS = d;
        blake2_rfc::blake2s::USED = 0;
    }
}
#[cfg(fawkes_verif)]
fn skip(r: &mut SeedboxBlake2, at: u64) {
    r.verif_skip_blocks(at)
}
#[cfg(not(fawkes_verif))]
fn skip(_: &mut SeedboxBlake2, _: u64) {
    assume(false)
}
fn stream(r: &mut SeedboxBlake2, salt: Option<[u8; 32]>, n: usize) {
    stream_at(r, salt, 0, n)
}
fn stream_at(r: &mut SeedboxBlake2, salt: Option<[u8; 32]>, at: u64, n: usize) {
    let mut block = [0u8; 32];
    for i in 0..n {
        if i % 8 == 0 {
            let mut h = Blake2s::with_params(32, &[], &[], b"__fawkes");
            h.update(&(at + (i / 8) as u64).to_le_bytes());
            if let Some(s) = salt {
                h.update(&s);
            }
            block.copy_from_slice(h.finalize().as_ref());
        }
        let j = 4 * (i % 8);
        let w = u32::from_le_bytes([block[j], block[j + 1], block[j + 2], block[j + 3]]);
        assert!(r.next_u32() == w);
    }
}
fn check_dec(s: &[u8], v: u64) {
    let n = if v >= 100 { 3 } else if v >= 10 { 2 } else { 1 };
    assert!(s.len() == n);
    assert!(s[n - 1] == b'0' + (v % 10) as u8);
    if n >= 2 {
        assert!(s[n - 2] == b'0' + (v / 10 % 10) as u8);
    }
    if n == 3 {
        assert!(s[0] == b'0' + (v / 100) as u8);
    }
}
trait SerB {
    fn serialize_b(&self, o: &mut Vec<u8>) -> bool;
}
impl<T: BorshSerialize> SerB for T {
    fn serialize_b(&self, o: &mut Vec<u8>) -> bool {
        BorshSerialize::serialize(self, o).is_ok()
    }
}
#[allow(dead_code)]
type Unused = (U1, U2);
