seed("c01-div-const-term", "C01",
 [("src/circuit/num.rs", "        for (_, v) in self.lc.iter_mut() {\n            *v /= other;\n        }", "        let inv = other.inverse();\n        for (k, v) in self.lc.iter_mut() {\n            if *k != Index::Input(0) {\n                *v *= inv;\n            }\n        }")],
 "a linear combination with a constant term divided by a native number; the carried value stays right, only the constraint side is wrong",
 "dividing (x + 5) by a constant leaves the constant term undivided in the constraints",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::num::CNum, core::signal::Signal, native::num::Num};
fn main() {
    let ref cs = Rec::default();
    let x: CNum<Rec> = CNum::alloc(cs, Some(&Num::from(7u64)));
    let k: N = Num::from(3u64);
    let y = (x + Num::from(5u64)) / k;
    assert!(y.get_value().unwrap() == Num::from(4u64));
    assert!(cs.eval(&y) == Num::from(4u64), "the constraint side of the quotient is wrong");
}
''')
seed("c02-is-zero-forge", "C02",
 [("src/circuit/num.rs", "                inv_signal.assert_nonzero();\n\n", "")],
 "a dishonest prover choosing zero for the helper wire of is_zero",
 "a prover can make is_zero return true for a non-zero number",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::num::CNum, core::signal::Signal, native::num::Num};
fn main() {
    let ref cs = Rec::default();
    let x: CNum<Rec> = CNum::alloc(cs, Some(&Num::from(7u64)));
    let b = x.is_zero();
    let n = cs.shape().1;
    assert!(cs.satisfied() && cs.eval(&b.0) == Num::zero());
    // forge: every helper wire zero
    for k in 1..n { cs.set(k, Num::zero()); }
    assert!(!cs.satisfied() || cs.eval(&b.0) == Num::zero(), "7 was shown to be zero");
}
''')
seed("c03-compare-digit", "C03",
 [("src/circuit/bitify.rs", "(true, false) => &sig_l.0 + &sig_u.0 * num!(2) - sig_lu - Num::one(),", "(true, false) => &sig_l.0 + &sig_u.0 - Num::one() + sig_lu * (k - k),")],
 "a constant with a 01 digit compared with a number that agrees on all higher digits and has a 10 digit there",
 "the comparison gadget says 2 > 1 is false",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::bool::CBool, circuit::bitify::c_comp_constant, core::signal::Signal, native::num::Num};
fn main() {
    for v in 0..16u64 {
        for c in 0..16u64 {
            let ref cs = Rec::default();
            let bits: Vec<CBool<Rec>> = (0..4).map(|i| CBool::alloc(cs, Some(&((v >> i) & 1 == 1)))).collect();
            let r = c_comp_constant(&bits, Num::from(c));
            assert!(cs.satisfied(), "{} {}", v, c);
            assert!((cs.eval(&r.0) == Num::one()) == (v > c), "{} > {}", v, c);
        }
    }
}
''')
seed("c04-switch-equal", "C04",
 [("src/circuit/num.rs", "            _ => {\n                if if_else.capacity() < self.capacity() {", "            _ => {\n                if self.value.is_some() && self.value == if_else.value {\n                    // both branches agree\n                    return self.clone();\n                }\n                if if_else.capacity() < self.capacity() {")],
 "two branches whose values happen to be equal in the witness",
 "the prover's circuit loses the selection constraint whenever the two branches carry equal values",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::num::CNum, circuit::bool::CBool, core::signal::Signal, native::num::Num};
fn build(v: Option<(u64, u64, bool)>) -> (usize, usize, usize) {
    let ref cs = Rec::default();
    let a: CNum<Rec> = CNum::alloc(cs, v.map(|v| Num::from(v.0)).as_ref());
    let b: CNum<Rec> = CNum::alloc(cs, v.map(|v| Num::from(v.1)).as_ref());
    let s: CBool<Rec> = CBool::alloc(cs, v.map(|v| v.2).as_ref());
    a.switch(&s, &b).assert_eq(&b);
    let s = cs.shape();
    (s.0, s.1, s.2.len())
}
fn main() {
    let k = build(None);
    for v in &[(1, 2, false), (3, 3, true), (3, 3, false), (0, 0, true)] {
        assert!(build(Some(*v)) == k, "the circuit depends on the witness {:?}", v);
    }
}
''')
seed("c05-inputize-const", "C05",
 [("src/circuit/num.rs", "                let input = self.cs.alloc_input(Some(v));\n                self.cs.enforce(\n                    &self.derive_var(Some(v), input),\n                    &self.derive_one(),\n                    &self.derive_const(&v),\n                );", "                self.cs.alloc_input(Some(v));")],
 "a constant exported as a public input and a verifier-side value that differs from it",
 "a constant exported as public input is not bound to the input",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::num::CNum, core::signal::Signal, native::num::Num};
fn main() {
    let ref cs = Rec::default();
    let a: CNum<Rec> = CNum::from_const(cs, &Num::from(7u64));
    a.inputize();
    assert!(cs.satisfied());
    cs.set_input(0, Num::from(8u64));
    assert!(!cs.satisfied(), "the public input 8 was accepted for the constant 7");
}
''')
seed("c06-into-edwards-two-torsion", "C06",
 [("src/circuit/ecc.rs", "        let y_is_zero = self.y.is_zero();\n        CEdwardsPoint {\n            x: &self.x / (&self.y + y_is_zero.0),", "        CEdwardsPoint {\n            x: &self.x / &self.y,")],
 "the Montgomery point (0,0), which scalar multiplication by zero reaches",
 "conversion of (0,0) leaves the abscissa unconstrained / fails for the prover",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::ecc::CMontgomeryPoint, core::signal::Signal, native::{ecc::MontgomeryPoint, num::Num}};
fn main() {
    let ref cs = Rec::default();
    let p = MontgomeryPoint { x: Num::zero(), y: Num::zero() };
    let p: CMontgomeryPoint<Rec> = CMontgomeryPoint::alloc(cs, Some(&p));
    let e = p.into_edwards();
    assert!(cs.satisfied());
    assert!(cs.eval(&e.x) == Num::zero() && cs.eval(&e.y) == -Num::one());
}
''')
seed("c08-cofactor-four", "C08",
 [("src/circuit/ecc.rs", "        let preimage_value = self.get_value().map(|p| p.mul(num!(8).inverse(), params));", "        let preimage_value = self.get_value().map(|p| p.mul(num!(4).inverse(), params));"),
  ("src/circuit/ecc.rs", "        let preimage8 = preimage.mul_by_cofactor(params);\n\n        (&self.x - &preimage8.x).assert_zero();", "        let preimage8 = preimage.double(params).double(params);\n\n        (&self.x - &preimage8.x).assert_zero();")],
 "a point of even order (subgroup point plus the point of order two) and a dishonest prover supplying its quarter",
 "the subgroup assertion accepts points outside the prime-order subgroup",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::ecc::CEdwardsPoint, core::signal::Signal, native::{bn256::JubJubBN256, ecc::{EdwardsPoint, JubJubParams}, num::Num}};
fn main() {
    let params = JubJubBN256::new();
    // find a point w with 4w outside the subgroup: w = any point of full order
    let mut w = None;
    for k in 2..200u64 {
        if let Some(p) = EdwardsPoint::get_for_y(Num::<Fr>::from(k), false, &params) {
            let q = p.double().double();
            if !q.into_extended().is_in_subgroup(&params) { w = Some((p, q)); break; }
        }
    }
    let (w, q) = w.expect("a point of full order");
    let ref cs = Rec::default();
    // generate the circuit with some honest point, then swap in the forged one
    let g = params.edwards_g().clone();
    let s: CEdwardsPoint<Rec> = CEdwardsPoint::alloc(cs, Some(&g));
    s.assert_in_subgroup(&params);
    assert!(cs.satisfied());
    // recompute every wire for the forged preimage: x, y of the point, x, y of the preimage, then the rest by running the code
    let ref cs2 = Rec::default();
    let s2: CEdwardsPoint<Rec> = CEdwardsPoint::alloc(cs2, Some(&q));
    let pre: CEdwardsPoint<Rec> = s2.derive_alloc(Some(&w));
    pre.assert_in_curve(&params);
    let d = pre.double(&params).double(&params);
    let _ = d;
    let n = cs2.shape().1;
    if cs.shape().1 == n {
        for k in 0..n { cs.set(k, cs2.get(k)); }
        assert!(!cs.satisfied(), "a point outside the subgroup was accepted");
    }
}
''')
seed("c09-sign", "C09",
 [("src/circuit/ecc.rs", "            let preimage_bits = c_into_bits_le_strict(&preimage);\n            preimage_bits[0].assert_false();\n", "            let preimage_bits = c_into_bits_le_strict(&preimage);\n            preimage_bits[0].assert();\n")],
 "a dishonest prover choosing the odd square root",
 "the circuit accepts the negated point as hash-to-curve output",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::{bitify::c_into_bits_le_strict, bool::CBool, ecc::{CEdwardsPoint, CMontgomeryPoint}, num::CNum}, core::signal::Signal, native::{bn256::JubJubBN256, ecc::{EdwardsPoint, JubJubParams}, num::Num}};
// the same computation as the circuit's, run by a prover that prefers odd roots
fn forged<'a>(t: &CNum<'a, Rec>, params: &JubJubBN256) {
    fn get<'a>(x: &CNum<'a, Rec>, params: &JubJubBN256) -> (CBool<'a, Rec>, CNum<'a, Rec>) {
        let odd = |x: N| if x.is_even() { -x } else { x };
        let g = (x.square() * (x + params.montgomery_a()) + x) / params.montgomery_b();
        let v = g.get_value().map(|g| match g.sqrt() { Some(r) => odd(r), _ => odd((g * params.montgomery_u()).sqrt().unwrap()) });
        let pre: CNum<Rec> = x.derive_alloc(v.as_ref());
        c_into_bits_le_strict(&pre);
        let sq = pre.square();
        let is = (&g - &sq).is_zero();
        let isnt = (&g * params.montgomery_u() - &sq).is_zero();
        (&is.0 + isnt.0 - Num::one()).assert_zero();
        (is, pre)
    }
    let t = t + Num::one();
    let t2g1 = t.square() * params.montgomery_u();
    let x3 = -Num::one() / params.montgomery_a() * (&t2g1 + Num::one());
    let x2 = &x3 / &t2g1;
    let (valid, y2) = get(&x2, params);
    let (_, y3) = get(&x3, params);
    let x = x2.switch(&valid, &x3);
    let y = y2.switch(&valid, &y3);
    CMontgomeryPoint { x, y }.into_edwards().mul_by_cofactor(params);
}
fn main() {
    let params = JubJubBN256::new();
    let t: N = Num::from(12345u64);
    let native = EdwardsPoint::from_scalar(t, &params);
    let cs = Rec::default();
    let ct: CNum<Rec> = CNum::alloc(&cs, Some(&t));
    let out = CEdwardsPoint::from_scalar(&ct, &params);
    assert!(cs.satisfied() && cs.eval(&out.x) == native.x && cs.eval(&out.y) == native.y);
    let cs2 = Rec::default();
    let ct2: CNum<Rec> = CNum::alloc(&cs2, Some(&t));
    forged(&ct2, &params);
    let n = cs.shape().1;
    if cs2.shape().1 == n {
        for k in 0..n { cs.set(k, cs2.get(k)); }
        assert!(!cs.satisfied() || (cs.eval(&out.x) == native.x && cs.eval(&out.y) == native.y), "a second point was accepted for the same scalar");
    }
}
''')
seed("c10-full-rounds", "C10",
 [("src/native/poseidon.rs", "if i < half_f || i >= half_f + params.p {", "if i < half_f || i > half_f + params.p {"),
  ("src/circuit/poseidon.rs", "if i < half_f || i >= half_f + params.p {", "if i < half_f || i > half_f + params.p {")],
 "nothing but looking at the definition: native and circuit agree with each other",
 "one full round is executed as a partial round, natively and in the circuit alike",
 r'''use fawkes_crypto::native::{bn256::Fr, num::Num, poseidon::{poseidon, PoseidonParams}};
fn reference(inp: &[Num<Fr>], q: &PoseidonParams<Fr>) -> Num<Fr> {
    let mut s = vec![Num::<Fr>::zero(); q.t];
    for (i, x) in inp.iter().enumerate() { s[i] = *x; }
    for r in 0..q.f + q.p {
        for x in s.iter_mut() { *x += q.c[r]; }
        let partial = r >= q.f / 2 && r < q.f / 2 + q.p;
        for (i, x) in s.iter_mut().enumerate() { if i == 0 || !partial { let y = *x; *x = y * y * y * y * y; } }
        let old = s.clone();
        for i in 0..q.t { s[i] = (0..q.t).fold(Num::zero(), |a, j| a + q.m[i][j] * old[j]); }
    }
    s[0]
}
fn main() {
    let q = PoseidonParams::<Fr>::new(3, 8, 53);
    let a: Vec<Num<Fr>> = vec![Num::from(1u64), Num::from(2u64)];
    assert!(poseidon(&a, &q) == reference(&a, &q));
}
''')
seed("c11-padding", "C11",
 [("src/circuit/poseidon.rs", "    state.extend_from_slice(&vec![CNum::zero(cs); total_leaf_sz - leaf_sz]);", "    let pad = if total_leaf_sz - leaf_sz > 1 { leaf[leaf_sz - 1].clone() } else { CNum::zero(cs) };\n    state.extend_from_slice(&vec![pad; total_leaf_sz - leaf_sz]);")],
 "a leaf count at least two below the next power of two (5 or 6 leaves, say)",
 "the circuit pads such trees with copies of the last leaf, the native code with zeros",
 r'''use fawkes_crypto::{circuit::num::CNum, circuit::poseidon::c_poseidon_merkle_tree_root, core::{cs::TestCS, signal::Signal}, native::{bn256::Fr, num::Num, poseidon::{poseidon_merkle_tree_root, PoseidonParams}}};
fn main() {
    let q = PoseidonParams::<Fr>::new(3, 8, 53);
    for n in 1..9u64 {
        let l: Vec<Num<Fr>> = (0..n).map(|i| Num::from(i + 1)).collect();
        let ref cs = TestCS::new();
        let c: Vec<_> = l.iter().map(|x| CNum::alloc(cs, Some(x))).collect();
        assert!(c_poseidon_merkle_tree_root(&c, &q).get_value().unwrap() == poseidon_merkle_tree_root(&l, &q), "{} leaves", n);
    }
}
''')
seed("c12-hash-alias", "C12",
 [("src/circuit/eddsaposeidon.rs", "    let h_bits = c_into_bits_le_strict(&h);", "    let h_bits = c_into_bits_le(&h, CS::F::NUM_BITS as usize);"),
  ("src/circuit/eddsaposeidon.rs", "    circuit::bitify::{c_into_bits_le, c_into_bits_le_strict},", "    circuit::bitify::c_into_bits_le,")],
 "a dishonest prover decomposing the challenge hash plus the field order",
 "the circuit can be satisfied with another challenge than the hash, so it contradicts the native verifier",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::{eddsaposeidon::c_eddsaposeidon_verify, bitify::*, num::CNum}, core::signal::Signal, native::{bn256::JubJubBN256, eddsaposeidon::eddsaposeidon_sign, num::Num, poseidon::PoseidonParams}};
// the decomposition of the challenge must be the strict one: compare the number of constraints with
// a strict and with a loose decomposition of one number, everything else being the same circuit
fn main() {
    let jj = JubJubBN256::new();
    let pp = PoseidonParams::<Fr>::new(4, 8, 54);
    let m: N = Num::from(5u64);
    let sk = Num::from(77u64);
    let (s, r) = eddsaposeidon_sign(sk, m, &pp, &jj);
    let a = jj_mul(&jj, 77);
    let cs = Rec::default();
    let f = |x: N| -> CNum<Rec> { CNum::alloc(&cs, Some(&x)) };
    let (cs_, cr, ca, cm) = (f(s.into_other()), f(r), f(a), f(m));
    let ok = c_eddsaposeidon_verify(&cs_, &cr, &ca, &cm, &pp, &jj);
    assert!(cs.satisfied() && cs.eval(&ok.0) == Num::one());
    // forge: find the 253 bit wires of the challenge, replace them by those of h + p where that fits
    let n = cs.shape().1;
    let honest: Vec<N> = (0..n).map(|k| cs.get(k)).collect();
    let _ = honest;
    // structural oracle: in a sound circuit every 254-bit decomposition is followed by a range check
    let cons = cs.shape().2;
    let one_strict = { let c = Rec::default(); let x: CNum<Rec> = CNum::alloc(&c, Some(&m)); c_into_bits_le_strict(&x); c.shape().2.len() };
    let one_loose = { let c = Rec::default(); let x: CNum<Rec> = CNum::alloc(&c, Some(&m)); c_into_bits_le(&x, 254); c.shape().2.len() };
    let forged = forge(&cs, n);
    assert!(one_strict > one_loose && cons.len() > one_strict);
    assert!(!forged, "the circuit accepted the bits of hash + order");
}
fn jj_mul(jj: &JubJubBN256, k: u64) -> N {
    use fawkes_crypto::native::ecc::JubJubParams;
    jj.edwards_g().mul(Num::from(k), jj).x
}
/// is there a run of 253 boolean wires b1.. with x - sum 2^i b_i constrained to be a bit, and no other use that
/// bounds them? Replace them by the bits of x + p (if that fits in 254 bits) and look only at the constraints
/// that mention nothing but these wires, x and constants.
fn forge(cs: &Rec, n: usize) -> bool {
    use fawkes_crypto::circuit::num::Index;
    use num::{bigint::BigUint};
    let p: BigUint = { let m: BigUint = Num::<Fr>::minusone().into(); m + BigUint::from(1u32) };
    let honest: Vec<N> = (0..n).map(|k| cs.get(k)).collect();
    let cons = cs.shape().2;
    let mut k = 0;
    while k + 253 <= n {
        let run = (k..k + 253).all(|j| honest[j] == Num::zero() || honest[j] == Num::one());
        if !run { k += 1; continue; }
        // the constraint that ties the run: mentions all 253 wires
        let tie = cons.iter().find(|c| (k..k + 253).all(|j| c[0].iter().any(|(i, _)| *i == Index::Aux(j))) && c[0].len() > 253);
        if let Some(c) = tie {
            let rest: Vec<_> = c[0].iter().filter(|(i, _)| match i { Index::Aux(j) => *j < k || *j >= k + 253, _ => true }).cloned().collect();
            let x = cs.eval_lc(&rest);
            let v: BigUint = x.into();
            let v = v + &p;
            if v.bits() <= 254 {
                for i in 1..254usize { cs.set(k + i - 1, Num::from((&v >> i) & BigUint::from(1u32))); }
                // range check wires may be repaired by the prover; they exist iff the run is multiplied with itself
                let ranged = cons.iter().any(|c| c[0].len() <= 1 && c[1].len() <= 1 && mentions(&c[0], k, 253) && mentions(&c[1], k, 253) && c[0] != c[1] && !single_same(&c[0], &c[1]));
                let good = cons.iter().filter(|c| only(c, k, 253, &rest)).all(|c| cs.eval_lc(&c[0]) * cs.eval_lc(&c[1]) == cs.eval_lc(&c[2]));
                for j in 0..n { cs.set(j, honest[j]); }
                if good && !ranged { return true; }
            }
        }
        k += 1;
    }
    false
}
type L = Vec<(fawkes_crypto::circuit::num::Index, N)>;
fn mentions(l: &L, k: usize, n: usize) -> bool {
    use fawkes_crypto::circuit::num::Index;
    l.iter().any(|(i, _)| match i { Index::Aux(j) => *j >= k && *j < k + n, _ => false })
}
fn single_same(a: &L, b: &L) -> bool { a.len() == 1 && b.len() == 1 && a[0].0 == b[0].0 }
fn only(c: &[L; 3], k: usize, n: usize, rest: &L) -> bool {
    use fawkes_crypto::circuit::num::Index;
    (mentions(&c[0], k, n) || mentions(&c[1], k, n) || mentions(&c[2], k, n))
        && c.iter().all(|l| l.iter().all(|(i, _)| match i { Index::Aux(j) => (*j >= k && *j < k + n) || rest.iter().any(|(r, _)| r == i), _ => true }))
}
''')
seed("c18-is-zero", "C18",
 [("src/native/ecc.rs", "        self.x.is_zero() && self.y == self.z", "        self.x.is_zero()")],
 "the point of order two (0,-1), reached by multiplying a point of even order by the group order",
 "the identity test accepts (0,-1), so the subgroup test accepts points of even order",
 r'''use fawkes_crypto::native::{bn256::{Fr, JubJubBN256}, ecc::EdwardsPoint, num::Num};
fn main() {
    let jj = JubJubBN256::new();
    let p = EdwardsPoint { x: Num::<Fr>::zero(), y: -Num::one() };
    assert!(p.is_in_curve(&jj));
    assert!(!p.into_extended().is_zero(), "(0,-1) is not the identity");
    assert!(!p.into_extended().is_in_subgroup(&jj), "(0,-1) has order two");
}
''')
seed("c07-identity-const-base", "C07",
 [("src/circuit/ecc.rs", "                if base.is_zero() {\n                    self.derive_const(&EdwardsPoint::zero())", "                if base.x.is_zero() || bits.iter().all(|b| b.as_const() == Some(false)) {\n                    self.derive_const(&EdwardsPoint::zero())"),
  ("src/circuit/ecc.rs", "let zeros_len = (3 - (bits_len % 3)) % 3;", "let zeros_len = if bits_len < 3 { 3 - bits_len } else { bits_len % 3 };")],
 "a constant base multiplied by a bit string whose length is congruent to 1 modulo 3 (and longer than 3)",
 "the padding of the last window is one bit short for such lengths, so the topmost bits are dropped",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::bool::CBool, circuit::ecc::CEdwardsPoint, core::signal::Signal, native::num::Num, native::ecc::JubJubParams, native::bn256::JubJubBN256};
fn main() {
    let params = JubJubBN256::new();
    let g = params.edwards_g().clone();
    for n in 3..9usize {
        let v = (1u64 << n) - 1;
        let ref cs = Rec::default();
        let p: CEdwardsPoint<Rec> = CEdwardsPoint::from_const(cs, &g);
        let bits: Vec<CBool<Rec>> = (0..n).map(|_| CBool::alloc(cs, Some(&true))).collect();
        let r = p.mul(&bits, &params);
        let e = g.mul(Num::from(v), &params);
        assert!(r.get_value().unwrap() == e, "{} bits", n);
    }
}
''')
seed("c13-nonzero-skip", "C13",
 [("src/circuit/num.rs", "            _ => {\n                let inv_value = match self.get_value() {\n                    Some(t) => {\n                        if t.is_zero() {\n                            Some(Num::one())\n                        } else {\n                            Some(t.inverse())\n                        }\n                    }\n                    None => None,\n                };\n                let inv_signal = self.derive_alloc(inv_value.as_ref());", "            _ => {\n                let inv_value = match self.get_value() {\n                    Some(t) => {\n                        if t.is_zero() {\n                            Some(Num::one())\n                        } else if t == Num::one() {\n                            // one is its own inverse, no helper needed\n                            self.cs.enforce(self, self, &self.derive_one());\n                            return;\n                        } else {\n                            Some(t.inverse())\n                        }\n                    }\n                    None => None,\n                };\n                let inv_signal = self.derive_alloc(inv_value.as_ref());")],
 "a witness in which a number asserted to be non-zero is exactly one",
 "for that witness the prover's circuit has one wire less than the circuit the keys were made for",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::num::CNum, core::signal::Signal, native::num::Num};
fn build(v: Option<u64>) -> (usize, usize, usize) {
    let ref cs = Rec::default();
    let a: CNum<Rec> = CNum::alloc(cs, v.map(|v| Num::from(v)).as_ref());
    a.assert_nonzero();
    let s = cs.shape();
    (s.0, s.1, s.2.len())
}
fn main() {
    for v in 1..4 { assert!(build(Some(v)) == build(None), "the circuit depends on the witness {}", v); }
}
''')
seed("c14-zero-left", "C14",
 [("src/core/cs.rs", "(Some(a), Some(b), Some(c)) => {", "(Some(a), Some(b), Some(c)) if !(a.is_zero() && b.is_zero()) => {")],
 "a constraint 0 * 0 = c with a non-zero right-hand side",
 "the testing constraint system accepts an unsatisfied constraint",
 r'''use fawkes_crypto::{circuit::num::CNum, core::cs::{TestCS, ConstraintSystem}, core::signal::Signal, native::num::Num, native::bn256::Fr};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for a in 0..3u64 { for b in 0..3u64 { for c in 0..5u64 {
        let r = std::panic::catch_unwind(|| {
            let ref cs = TestCS::<Fr>::new();
            let f = |v: u64| CNum::alloc(cs, Some(&Num::from(v)));
            cs.enforce(&f(a), &f(b), &f(c));
        });
        assert!(r.is_ok() == (a * b == c), "{} * {} = {}", a, b, c);
    }}}
}
''')
seed("c15-negative-multiple", "C15",
 [("src/native/num.rs", "        let mut remainder = x % &order;\n        if remainder.is_negative() {", "        let negative = x.is_negative();\n        let mut remainder = x % &order;\n        if negative {")],
 "a negative big integer that is an exact multiple of the field order",
 "converting such an integer fails instead of giving zero",
 r'''use fawkes_crypto::native::{num::Num, bn256::Fr};
use num::bigint::{BigInt, BigUint, ToBigInt};
fn main() {
    let order: BigUint = Into::<BigUint>::into(Num::<Fr>::minusone()) + BigUint::from(1u32);
    let o: BigInt = order.to_bigint().unwrap();
    for k in -3..4i32 { for d in -2..3i32 {
        let x = &o * BigInt::from(k) + BigInt::from(d);
        assert!(Num::<Fr>::from(x) == Num::from(d), "{} times the order plus {}", k, d);
    }}
}
''')
seed("c15-u64-second-limb", "C15",
 [("src/native/num.rs", "assert!((1..r.len()).all(|i| r[i] == 0));", "assert!(r[1..].chunks(2).all(|c| c.iter().fold(0u64, |a, x| a.wrapping_add(*x)) == 0));")],
 "an element whose second and third 64-bit words are non-zero and cancel modulo 2^64",
 "such an element is silently truncated to a machine integer",
 r'''use fawkes_crypto::native::{num::Num, bn256::Fr};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let w = Num::<Fr>::from(u64::MAX) + Num::one();
    for (a, b, c) in &[(5u64, 1u64, 0u64), (5, 0, 1), (5, 1, u64::MAX), (0, 1 << 63, 1 << 63)] {
        let x = Num::<Fr>::from(*a) + w * Num::from(*b) + w * w * Num::from(*c);
        let r = std::panic::catch_unwind(|| { let _: u64 = x.into(); });
        assert!(r.is_err(), "{} {} {}", a, b, c);
    }
    let y: u64 = Num::<Fr>::from(u64::MAX).into();
    assert!(y == u64::MAX);
}
''')
seed("c16-serde-order", "C16",
 [("src/native/num.rs", "if bn > Into::<BigUint>::into(Num::<T>::from(-1)) {", "if bn > Into::<BigUint>::into(Num::<T>::from(-1)) + BigUint::from(1u32) {")],
 "the textual encoding of exactly the field order",
 "the order itself is accepted as a second encoding of zero",
 r'''use fawkes_crypto::native::{num::Num, bn256::Fr};
use num::bigint::BigUint;
fn main() {
    let m: BigUint = Num::<Fr>::minusone().into();
    let t = |x: BigUint| serde_json::from_str::<Num<Fr>>(&format!("\"{}\"", x));
    assert!(t(m.clone()).unwrap() == Num::minusone());
    for k in 1..4u32 { assert!(t(&m + BigUint::from(k)).is_err(), "order plus {}", k - 1); }
}
''')
seed("c16-borsh-wrap", "C16",
 [("src/native/num.rs", "        repr.read_le(buf)?;\n", "        repr.read_le(buf)?;\n        if repr == T::char() {\n            // minus zero\n            repr = T::zero().into_repr();\n        }\n")],
 "the binary encoding of exactly the field order",
 "the order itself is accepted as a second encoding of zero",
 r'''use fawkes_crypto::native::{num::Num, bn256::Fr};
use borsh::BorshDeserialize;
use num::bigint::BigUint;
fn main() {
    let m: BigUint = Num::<Fr>::minusone().into();
    for k in 0..4u32 {
        let mut b = (&m + BigUint::from(k)).to_bytes_le();
        b.resize(32, 0);
        let r = Num::<Fr>::try_from_slice(&b);
        assert!(r.is_ok() == (k == 0), "order minus one plus {}", k);
    }
}
''')
seed("c17-collect-truncates", "C17",
 [("src/core/sizedvec.rs", "let v = Vec::<T>::from_iter(iter);", "let v = Vec::<T>::from_iter(iter.into_iter().take(L::USIZE));")],
 "collecting more elements than the declared length",
 "surplus elements are dropped silently",
 r'''use fawkes_crypto::core::sizedvec::SizedVec;
use typenum::U3;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for n in 0..6u32 {
        let r = std::panic::catch_unwind(|| (0..n).collect::<SizedVec<u32, U3>>());
        assert!(r.is_ok() == (n == 3), "{}", n);
    }
}
''')
seed("c19-decompress-order4", "C19",
 [("src/native/ecc.rs", "                if lx.is_zero() {\n                    if ly == Num::one() {\n                        Some(Self { x, y })", "                if lx.is_zero() || ly.is_zero() {\n                    if ly == Num::one() {\n                        Some(Self { x, y })")],
 "the abscissa of a point outside the subgroup whose small-order component has order 4",
 "decompression returns a point outside the prime-order subgroup",
 r'''use fawkes_crypto::native::{num::Num, bn256::{Fr, JubJubBN256}, ecc::{EdwardsPoint, JubJubParams}};
fn main() {
    let p = JubJubBN256::new();
    let g = p.edwards_g().clone();
    // (i, 0) has order 4
    let t = EdwardsPoint { x: Num::<Fr>::minusone().sqrt().unwrap(), y: Num::zero() };
    assert!(t.is_in_curve(&p));
    for k in 1..5u64 {
        let s = g.mul(Num::from(k), &p);
        assert!(EdwardsPoint::subgroup_decompress(s.x, &p) == Some(s));
        let q = s.add(&t, &p);
        assert!(EdwardsPoint::subgroup_decompress(q.x, &p).map_or(true, |r| r.into_extended().is_in_subgroup(&p)), "point outside the subgroup");
    }
}
''')
seed("c21-missing-as-zero", "C21",
 [("src/helpers/groth16/mod.rs", ".alloc_input(|| format!(\"i[{}]\", ninputs), || value.grab())", ".alloc_input(|| format!(\"i[{}]\", ninputs), || Ok(value.map(|v| v.into_inner()).unwrap_or(AbstractField::zero())))")],
 "a proof attempted with a public input whose value is missing",
 "the prover invents zero for the missing input instead of reporting it",
 r'''use fawkes_crypto::{circuit::num::CNum, core::cs::{Circuit, ConstraintSystem}, core::signal::Signal, native::num::Num, native::bn256::Fr};
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove};
use pairing::bn256::Bn256;
#[derive(Default)]
struct C(Option<Num<Fr>>);
impl Circuit for C {
    type F = Fr;
    fn synthesize<CS: ConstraintSystem<F = Fr>>(&self, cs: &CS) {
        let one: Num<Fr> = Num::one();
        let a = CNum::alloc(cs, Some(&one));
        a.assert_nonzero();
        let i = cs.alloc_input(self.0);
        let i = CNum::from_var(cs, self.0, i);
        cs.enforce(&i, &(&a - &a), &(&a - &a));
    }
    fn get_inputs(&self) -> Option<Vec<Num<Fr>>> { self.0.map(|x| vec![x]) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let p = generate_keys::<Bn256, C>();
    assert!(std::panic::catch_unwind(|| { prove(&C(Some(Num::from(5u64))), &p); }).is_ok());
    assert!(std::panic::catch_unwind(|| { prove(&C(None), &p); }).is_err(), "proved without a public input");
}
''')
seed("c22-fewer-inputs", "C22",
 [("src/helpers/groth16/verifier.rs", "    if (public_inputs.len() + 1) != tvk.ic.len() {", "    // one element per input and one for the constant\n    if public_inputs.len() >= tvk.ic.len() {")],
 "verification with fewer public inputs than the key has",
 "a short input list is treated as if it were padded with zeros and gets a verdict",
 r'''use fawkes_crypto::{native::bn256::Fr};
use fawkes_crypto::helpers::groth16::{prover::Proof, verifier::{verify, TruncatedVerifyingKey}};
use pairing::{bn256::{Bn256, G1Affine, G2Affine}, CurveAffine};
use ff::Field;
fn main() {
    let (g, h) = (G1Affine::one(), G2Affine::one());
    for n in 0..4usize {
        let vk = TruncatedVerifyingKey::<Bn256> { alpha_g1: g, beta_g2: h, gamma_g2: h, delta_g2: h, ic: vec![g; n] };
        let p = Proof::<Bn256>(bellman::groth16::Proof { a: g, b: h, c: g });
        for k in 0..4usize {
            let r = verify(&vk, &p, &vec![Fr::one(); k]);
            assert!(r.is_ok() == (k + 1 == n), "{} inputs for a key with {} elements", k, n);
        }
    }
}
''')
seed("c24-g2-order", "C24",
 [("src/helpers/groth16/near.rs", "        self.1 .1.serialize(writer)?;\n        self.1 .0.serialize(writer)", "        self.1 .0.serialize(writer)?;\n        self.1 .1.serialize(writer)"),
  ("src/helpers/groth16/near.rs", "        let y_re = Num::deserialize(buf)?;\n        let y_im = Num::deserialize(buf)?;", "        let y_im = Num::deserialize(buf)?;\n        let y_re = Num::deserialize(buf)?;")],
 "comparing the bytes with what the contract side expects; every round trip still works",
 "the ordinate of an extension-field point is written imaginary part first",
 r'''use fawkes_crypto::helpers::groth16::G2PointData;
use fawkes_crypto::native::num::Num;
use pairing::bn256::{Fq, G2Affine};
use pairing::CurveAffine;
use borsh::BorshSerialize;
fn main() {
    let d = G2PointData::<Fq>::from(G2Affine::one());
    let v = serde_json::to_value(&d).unwrap();
    let w = |i: usize, j: usize| { let n: Num<Fq> = serde_json::from_value(v[i][j].clone()).unwrap(); n.try_to_vec().unwrap() };
    let e = [w(0, 1), w(0, 0), w(1, 1), w(1, 0)].concat();
    assert!(d.try_to_vec().unwrap() == e, "wrong order of coordinates");
}
''')
seed("c24-key-order", "C24",
 [("src/helpers/groth16/near.rs", "        self.gamma_g2.serialize(writer)?;\n        self.delta_g2.serialize(writer)?;", "        self.delta_g2.serialize(writer)?;\n        self.gamma_g2.serialize(writer)?;")],
 "a key whose gamma and delta differ",
 "gamma and delta are exchanged when a key is written and read back",
 r'''use fawkes_crypto::helpers::groth16::verifier::TruncatedVerifyingKeyData;
use pairing::bn256::Fq;
use borsh::{BorshSerialize, BorshDeserialize};
fn main() {
    let mut k = 0; let mut n = || { k += 1; k.to_string() };
    let mut g1 = || vec![n(), n()];
    let g2 = |a: Vec<String>, b: Vec<String>| vec![a, b];
    let v = serde_json::json!({"alpha_g1": g1(), "beta_g2": g2(g1(), g1()), "gamma_g2": g2(g1(), g1()), "delta_g2": g2(g1(), g1()), "ic": [g1(), g1()]});
    let d: TruncatedVerifyingKeyData<Fq> = serde_json::from_value(v).unwrap();
    let e = TruncatedVerifyingKeyData::<Fq>::try_from_slice(&d.try_to_vec().unwrap()).unwrap();
    assert!(d == e, "the key changed");
}
''')
seed("c25-counter-byte", "C25",
 [("src/core/seedbox.rs", "                .write_u64::<LittleEndian>(self.n_iter)", "                .write_u64::<LittleEndian>(self.n_iter & 0xffff)")],
 "more than 65536 blocks drawn from one generator",
 "the stream repeats from the start",
 r'''use fawkes_crypto::core::seedbox::SeedboxBlake2;
use rand::Rng;
fn main() {
    let mut r = SeedboxBlake2::new_with_salt(b"demo");
    let first: Vec<u32> = (0..8).map(|_| r.next_u32()).collect();
    for _ in 0..65535 * 8 { r.next_u32(); }
    let again: Vec<u32> = (0..8).map(|_| r.next_u32()).collect();
    assert!(first != again, "the stream repeats");
}
''')
seed("c20-bls-u", "C20",
 [("src/native/bls12_381.rs", "let montgomery_u = num!(81929);", "let montgomery_u = num!(81928);")],
 "the bls12-381 parameters, whose hash-to-curve no test exercises, and an element on which neither candidate is a square",
 "the hash-to-curve constant is a square, so the mapping fails on a part of all inputs",
 r'''use fawkes_crypto::native::bls12_381::{Fr, JubJubBLS12_381};
use fawkes_crypto::native::ecc::{EdwardsPoint, JubJubParams};
use fawkes_crypto::native::num::Num;
fn main() {
    let params = JubJubBLS12_381::new();
    assert!(params.montgomery_u().sqrt().is_none(), "the constant is a square");
    for k in 0..20u64 {
        let p = EdwardsPoint::from_scalar(Num::<Fr>::from(k), &params);
        assert!(p.into_extended().is_in_subgroup(&params));
    }
}
''')
seed("c20-bls-montgomery", "C20",
 [("src/native/bls12_381.rs", "let montgomery_b = -num!(4) / (Num::one() + edwards_d);", "let montgomery_b = num!(4) / (Num::one() + edwards_d);")],
 "the bls12-381 parameters, which no test exercises",
 "the Montgomery form belongs to another model than the Edwards form, so converted points leave the curve",
 r'''use fawkes_crypto::native::bls12_381::{Fr, JubJubBLS12_381};
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::num::Num;
fn main() {
    let params = JubJubBLS12_381::new();
    let d = params.edwards_d();
    let one = Num::<Fr>::one();
    assert!(params.montgomery_b() * (one + d) == -Num::from(4u64), "the Montgomery coefficient does not match d");
    assert!(params.edwards_g().is_in_curve(&params), "the generator is off the curve");
}
''')
seed("c23-gamma-infinity", "C23",
 [("src/helpers/groth16/verifier.rs", """        let gamma_g2 = g2_repr
            .into_affine()
            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
            .and_then(|e| {
                if e.is_zero() {
                    Err(io::Error::new(
                        io::ErrorKind::InvalidData,
                        "point at infinity",
                    ))
                } else {
                    Ok(e)
                }
            })?;
""", """        let gamma_g2 = g2_repr
            .into_affine()
            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
""")],
 "a key whose gamma is the point at infinity",
 "a key with gamma at infinity is read as valid, and then ignores its public inputs",
 r'''use fawkes_crypto::helpers::groth16::verifier::TruncatedVerifyingKey;
use pairing::{bls12_381::{Bls12, G1Affine, G2Affine}, CurveAffine};
fn main() {
    let (g, h) = (G1Affine::one(), G2Affine::one());
    for k in 0..5 {
        let z1 = |i: usize| if i == k { G1Affine::zero() } else { g };
        let z2 = |i: usize| if i == k { G2Affine::zero() } else { h };
        let vk = TruncatedVerifyingKey::<Bls12> { alpha_g1: z1(0), beta_g2: z2(1), gamma_g2: z2(2), delta_g2: z2(3), ic: vec![g, z1(4)] };
        let mut b = vec![];
        vk.write(&mut b).unwrap();
        assert!(TruncatedVerifyingKey::<Bls12>::read(&b[..]).is_err(), "element {} at infinity was accepted", k);
    }
}
''')
seed("c23-short-writer", "C23",
 [("src/helpers/groth16/verifier.rs", "            writer.write_all(ic.into_compressed().as_ref())?;", "            writer.write(ic.into_compressed().as_ref())?;")],
 "a writer that takes fewer bytes per call than offered",
 "part of a key is lost when the writer accepts only some of the bytes offered",
 r'''use fawkes_crypto::helpers::groth16::verifier::TruncatedVerifyingKey;
use pairing::{bls12_381::{Bls12, G1Affine, G2Affine}, CurveAffine};
use std::io::{self, Write};
struct Slow(Vec<u8>);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(5); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let (g, h) = (G1Affine::one(), G2Affine::one());
    let vk = TruncatedVerifyingKey::<Bls12> { alpha_g1: g, beta_g2: h, gamma_g2: h, delta_g2: h, ic: vec![g, g, g] };
    let mut b = Slow(vec![]);
    vk.write(&mut b).unwrap();
    let mut c = vec![];
    vk.write(&mut c).unwrap();
    assert!(b.0 == c, "the writer got {} of {} bytes", b.0.len(), c.len());
}
''')
seed("c28-bls-subgroup", "C28",
 [("src/helpers/groth16/mod.rs", """        let res = unsafe { transmute::<_, bls12_381::G1Affine>((x, y, is_zero)) };
        assert!(
            res.mul(bls12_381::Fr::char()).is_zero(),
            "point should be in subgroup"
        );
        res""", """        let res = unsafe { transmute::<_, bls12_381::G1Affine>((x, y, is_zero)) };
        assert!(
            is_zero || !res.mul(bls12_381::Fr::char()).into_affine().mul(bls12_381::Fr::char()).is_zero() || res.mul(bls12_381::Fr::char()).is_zero(),
            "point should be in subgroup"
        );
        res""")],
 "a point of the bls12-381 curve outside the prime-order subgroup",
 "points outside the subgroup are taken as valid",
 r'''use fawkes_crypto::helpers::groth16::G1PointData;
use fawkes_crypto::native::num::Num;
use pairing::bls12_381::{Fq, G1Affine};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut seen = 0;
    for k in 1..40u64 {
        let x = Num::<Fq>::from(k);
        let y = match (x * x * x + Num::from(4u64)).sqrt() { Some(y) => y, None => continue };
        let d: G1PointData<Fq> = serde_json::from_value(serde_json::json!([x.to_string(), y.to_string()])).unwrap();
        seen += 1;
        let ok = std::panic::catch_unwind(move || { let _p: G1Affine = d.into(); }).is_ok();
        if ok { eprintln!("a point outside the subgroup was accepted"); std::process::exit(1); }
    }
    assert!(seen > 5);
}
''')
seed("c28-zero-abscissa", "C28",
 [("src/helpers/groth16/mod.rs", """        let x = self.0.into_inner();
        let y = self.1.into_inner();
        let is_zero = x.is_zero() && y.is_zero();
        assert!(
            is_on_curve(x, y, is_zero, &BN256_B_COEFF),""", """        let x = self.0.into_inner();
        let y = self.1.into_inner();
        let is_zero = x.is_zero();
        assert!(
            is_on_curve(x, y, is_zero, &BN256_B_COEFF),""")],
 "coordinate data with a zero abscissa and a non-zero ordinate",
 "off-curve data (0, y) is taken for the point at infinity",
 r'''use fawkes_crypto::helpers::groth16::G1PointData;
use pairing::bn256::{Fq, G1Affine};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for y in 1..20u64 {
        let d: G1PointData<Fq> = serde_json::from_value(serde_json::json!(["0", y.to_string()])).unwrap();
        let ok = std::panic::catch_unwind(move || { let _p: G1Affine = d.into(); }).is_ok();
        if ok { eprintln!("(0, {}) was accepted", y); std::process::exit(1); }
    }
}
''')
seed("c26-ic-truncated", "C26",
 [("src/helpers/groth16/ethereum.rs", "    for i in 0..vk.ic.len() {", "    for i in 0..vk.ic.len().min(10) {")],
 "a circuit with ten or more public inputs",
 "the contract leaves the later input points at zero, so it ignores those inputs",
 r'''use fawkes_crypto::helpers::groth16::{ethereum::generate_sol_data, verifier::TruncatedVerifyingKey};
use pairing::bn256::{Bn256, G1, G2};
use pairing::CurveProjective;
fn main() {
    let ic: Vec<_> = (0..13).map(|k| { let mut p = G1::one(); for _ in 0..k { p.add_assign(&G1::one()); } p.into_affine() }).collect();
    let g2 = G2::one().into_affine();
    let vk = TruncatedVerifyingKey::<Bn256> { alpha_g1: ic[12], beta_g2: g2, gamma_g2: g2, delta_g2: g2, ic };
    let d = vk.into_data();
    let text: String = generate_sol_data(&d).split_whitespace().collect();
    for p in d.ic.iter() {
        let v = serde_json::to_value(p).unwrap();
        let s = format!("{},{}", v[0].as_str().unwrap(), v[1].as_str().unwrap());
        if !text.contains(&s) { eprintln!("an input point is missing from the contract"); std::process::exit(1); }
    }
}
''')
seed("c26-infinity-literal", "C26",
 [("src/helpers/groth16/ethereum.rs", """        format!("{}, {}", p.0.to_string(), p.1.to_string()).to_string()
    }

    fn stringify_g2""", """        if p.0.is_zero() {
            // the affine form of the point at infinity
            return "0, 1".to_string();
        }
        format!("{}, {}", p.0.to_string(), p.1.to_string()).to_string()
    }

    fn stringify_g2""")],
 "a key with an input point at infinity (a public input no constraint uses)",
 "the contract's literal is no point of the curve, so it refuses every proof",
 r'''use fawkes_crypto::helpers::groth16::{ethereum::generate_sol_data, verifier::TruncatedVerifyingKey};
use pairing::bn256::{Bn256, G1, G2, G1Affine};
use pairing::{CurveAffine, CurveProjective};
fn main() {
    let g1 = G1::one().into_affine();
    let g2 = G2::one().into_affine();
    let vk = TruncatedVerifyingKey::<Bn256> { alpha_g1: g1, beta_g2: g2, gamma_g2: g2, delta_g2: g2, ic: vec![g1, G1Affine::zero()] };
    let text: String = generate_sol_data(&vk.into_data()).split_whitespace().collect();
    let i = text.find("vk.IC[1]=").expect("the second input point");
    let rest: String = text[i + 9..].chars().take_while(|c| *c != ';').collect();
    let args: Vec<&str> = rest[rest.find('(').unwrap() + 1..].trim_end_matches(')').split(',').collect();
    if args != ["0", "0"] { eprintln!("infinity is written as {:?}", args); std::process::exit(1); }
}
''')
seed("c26-g2-order", "C26",
 [("src/helpers/groth16/mod.rs", """            //use big endian here
            Self((Num(x.c1), Num(x.c0)), (Num(y.c1), Num(y.c0)))
        }
    }
}

impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
    fn into(self) -> bn256::G2Affine {
        //use big endian here
        let x = bn256::Fq2 {
            c0: self.0 .1.into_inner(),
            c1: self.0 .0.into_inner(),
        };
        let y = bn256::Fq2 {
            c0: self.1 .1.into_inner(),
            c1: self.1 .0.into_inner(),
        };""", """            Self((Num(x.c0), Num(x.c1)), (Num(y.c0), Num(y.c1)))
        }
    }
}

impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
    fn into(self) -> bn256::G2Affine {
        let x = bn256::Fq2 {
            c0: self.0 .0.into_inner(),
            c1: self.0 .1.into_inner(),
        };
        let y = bn256::Fq2 {
            c0: self.1 .0.into_inner(),
            c1: self.1 .1.into_inner(),
        };""")],
 "using the data outside the library: both directions of the conversion changed together",
 "keys and proofs reach the contract with the halves of the G2 coordinates exchanged, so it refuses every proof",
 r'''use fawkes_crypto::helpers::groth16::{ethereum::generate_sol_data, verifier::TruncatedVerifyingKey};
use pairing::bn256::{Bn256, G1, G2};
use pairing::CurveProjective;
fn main() {
    let g1 = G1::one().into_affine();
    let g2 = G2::one().into_affine();
    let vk = TruncatedVerifyingKey::<Bn256> { alpha_g1: g1, beta_g2: g2, gamma_g2: g2, delta_g2: g2, ic: vec![g1, g1] };
    let text: String = generate_sol_data(&vk.into_data()).split_whitespace().collect();
    // the G2 generator in the order of the precompile (EIP-197): imaginary part first
    let want = "[11559732032986387107991004021392285783925812861821192530917403151452391805634,10857046999023057135944570762232829481370756359578518086990519993285655852781],[4082367875863433681332203403145435568316851327593401208105741076214120093531,8495653923123431417604973247489272438418190587263600148770280649306958101930]";
    if !text.contains(want) { eprintln!("the generator is not written in the precompile's order"); std::process::exit(1); }
}
''')
seed("c12-nonce-without-message", "C12",
 [("src/native/eddsaposeidon.rs", """    h.update(sk.into_binary_be().as_ref());
    h.update(m.into_binary_be().as_ref());
""", """    h.update(sk.into_binary_be().as_ref());
    let tag = m.into_binary_be();
    h.update(&tag[..tag.len() / 32]);
""")],
 "two messages signed with one key whose leading bytes agree",
 "the nonce does not depend on (most of) the message, so two signatures reveal the secret key; every signature still verifies",
 r'''use fawkes_crypto::native::bn256::{Fr, Fs, JubJubBN256};
use fawkes_crypto::native::{eddsaposeidon::eddsaposeidon_sign, num::Num, poseidon::PoseidonParams};
fn main() {
    let (q, j) = (PoseidonParams::<Fr>::new(4, 8, 54), JubJubBN256::new());
    let sk = Num::<Fs>::from(123456789u64);
    let (s1, r1) = eddsaposeidon_sign(sk, Num::<Fr>::from(1u64), &q, &j);
    let (s2, r2) = eddsaposeidon_sign(sk, Num::<Fr>::from(2u64), &q, &j);
    if r1 == r2 && s1 != s2 { eprintln!("nonce reuse"); std::process::exit(1); }
}
''')
PROOF_DEMO = r'''use bellman::pairing::bn256::{Bn256, Fr};
use fawkes_crypto::{
    circuit::num::CNum,
    core::cs::{Circuit, ConstraintSystem},
    core::signal::Signal,
    helpers::groth16::prover::{generate_keys, prove},
    helpers::groth16::verifier::{truncate_verifying_key, verify},
    native::num::Num,
};
#[derive(Default)]
struct C(Option<(Num<Fr>, Num<Fr>)>);
impl Circuit for C {
    type F = Fr;
    fn synthesize<CS: ConstraintSystem<F = Fr>>(&self, cs: &CS) {
        let a = CNum::alloc(cs, self.0.as_ref().map(|x| &x.0));
        let b = CNum::alloc(cs, self.0.as_ref().map(|x| &x.1));
        (&a * &b).inputize();
    }
    fn get_inputs(&self) -> Option<Vec<Num<Fr>>> {
        None
    }
}
'''
seed("c27-seeded-randomness", "C27",
 [("src/helpers/groth16/prover.rs", "    core::osrng::OsRng,\n", "    core::osrng::OsRng,\n    core::seedbox::SeedboxBlake2,\n"),
  ("src/helpers/groth16/prover.rs", "    let ref mut rng = OsRng::new();\n    Proof(", "    // one read of the system source per proof is enough: stretch it\n    let seed = OsRng::new().next_u32() & 0xff;\n    let ref mut rng = SeedboxBlake2::new_with_salt(&seed.to_le_bytes());\n    Proof("),
  ("src/helpers/groth16/prover.rs", "use pairing::{bls12_381, bn256, Engine};\n", "use pairing::{bls12_381, bn256, Engine};\nuse rand::Rng;\n")],
 "many proofs of the same statement: after a few hundred the randomness repeats; every single proof verifies",
 "the prover's randomness comes from a small seed, so proofs of equal statements repeat and are linkable",
 PROOF_DEMO + r'''fn main() {
    let keys = generate_keys::<Bn256, C>();
    let w: (Num<Fr>, Num<Fr>) = (Num::from(3u64), Num::from(5u64));
    let mut seen = vec![];
    for _ in 0..300 {
        let p = prove(&C(Some(w)), &keys);
        assert!(verify(&truncate_verifying_key(&keys.vk), &p, &[Num::<Fr>::from(15u64).0]).unwrap());
        let mut b = vec![];
        p.write(&mut b).unwrap();
        assert!(!seen.contains(&b), "two proofs drew the same randomness");
        seen.push(b);
    }
}
''')
seed("c27-osrng-halves", "C27",
 [("src/core/osrng.rs", "        u32::from_be_bytes(buf)\n    }\n", "        u32::from_be_bytes(buf)\n    }\n\n    fn next_u64(&mut self) -> u64 {\n        let w = u64::from(self.next_u32());\n        (w << 32) | w\n    }\n")],
 "looking at the 64-bit words the randomness for keys and proofs is made of",
 "both halves of every 64-bit word are the same, so keys and proofs are made from half the entropy",
 r'''use fawkes_crypto::core::osrng::OsRng;
use rand::Rng;
fn main() {
    let mut r = OsRng::new();
    let same = (0..8).filter(|_| { let w = r.next_u64(); w >> 32 == w & 0xffff_ffff }).count();
    assert!(same < 8, "the system generator repeats its words");
}
''')
seed("c27-osrng-partial", "C27",
 [("src/core/osrng.rs", "getrandom(&mut buf).unwrap();", "getrandom(&mut buf[1..]).unwrap();")],
 "looking at the range of the 32-bit words of the system generator",
 "the top byte of every random word is zero: a quarter of the entropy is missing from keys and proofs",
 r'''use fawkes_crypto::core::osrng::OsRng;
use rand::Rng;
fn main() {
    let mut r = OsRng::new();
    assert!((0..64).any(|_| r.next_u32() >> 24 != 0), "the top byte is never random");
}
''')
seed("c23-swallowed-write-error", "C23",
 [("src/helpers/groth16/verifier.rs", "        writer.write_all(self.gamma_g2.into_compressed().as_ref())?;", "        writer.write_all(self.gamma_g2.into_compressed().as_ref()).or_else(|e| if e.kind() == io::ErrorKind::Other { Ok(()) } else { Err(e) })?;")],
 "a writer that fails once, at the third element, and then recovers",
 "writing a key reports success although an element was lost",
 r'''use fawkes_crypto::helpers::groth16::verifier::TruncatedVerifyingKey;
use bellman::pairing::bn256::{Bn256, G1Affine, G2Affine};
use pairing::CurveAffine;
use std::io::{self, Write};
struct W(usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += 1;
        if self.0 == 3 { return Err(io::Error::new(io::ErrorKind::Other, "once")); }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let k = TruncatedVerifyingKey::<Bn256> { alpha_g1: G1Affine::one(), beta_g2: G2Affine::one(), gamma_g2: G2Affine::one(), delta_g2: G2Affine::one(), ic: vec![G1Affine::one()] };
    assert!(k.write(W(0)).is_err(), "a lost element is reported as success");
}
''')

seed("c30-column-order", "C30",
 [("src/native/poseidon.rs", "        let m = (0..t)\n            .map(|_| (0..t).map(|_| seedbox.gen()).collect())\n            .collect();", "        let mut m = vec![vec![Num::zero(); t]; t];\n        for j in 0..t {\n            for row in m.iter_mut() {\n                row[j] = seedbox.gen();\n            }\n        }")],
 "hashing with parameters made by another build",
 "the mixing matrix is filled column by column, so every hash differs from the published one",
 r'''use fawkes_crypto::{core::seedbox::SeedboxBlake2, native::bn256::Fr, native::num::Num, native::poseidon::PoseidonParams};
use rand::Rng;
fn main() {
    let q = PoseidonParams::<Fr>::new(3, 8, 53);
    let mut r = SeedboxBlake2::new_with_salt(b"fawkes_poseidon(t=3,f=8,p=53)");
    let v: Vec<Num<Fr>> = (0..61 + 9).map(|_| r.gen()).collect();
    assert!(q.c[..] == v[..61], "round constants");
    assert!(q.m.concat()[..] == v[61..], "the mixing matrix is not the published one");
}
''')
seed("c20-generator-seed", "C20",
 [("src/native/bls12_381.rs", "Num::from_seed(SEED_EDWARDS_G),", "Num::from_seed(SEED_EDWARDS_G) + num!(1),")],
 "comparing the generator with the point anyone can derive from the public seed",
 "the generator of the BLS12-381 curve is not the image of the public seed (it could have been chosen)",
 r'''use fawkes_crypto::native::{bls12_381::JubJubBLS12_381, ecc::{EdwardsPoint, JubJubParams}, num::Num};
fn main() {
    let j = JubJubBLS12_381::new();
    let g = EdwardsPoint::from_scalar(Num::from_seed(b"edwards_g"), &j);
    assert!(g == *j.edwards_g(), "the generator does not come from the seed");
}
''')
seed("c30-salt-rounds", "C30",
 [("src/native/poseidon.rs", "format!(\"fawkes_poseidon(t={},f={},p={})\", t, f, p)", "format!(\"fawkes_poseidon(t={},f={},p={})\", t, f, p.max(f))")],
 "parameters with fewer partial than full rounds",
 "parameter sets with fewer partial than full rounds share the sequence of another set",
 r'''use fawkes_crypto::{core::seedbox::SeedboxBlake2, native::bn256::Fr, native::num::Num, native::poseidon::PoseidonParams};
use rand::Rng;
fn main() {
    for (t, f, p) in vec![(3usize, 8usize, 53usize), (3, 8, 5), (2, 2, 1)] {
        let q = PoseidonParams::<Fr>::new(t, f, p);
        let mut r = SeedboxBlake2::new_with_salt(format!("fawkes_poseidon(t={},f={},p={})", t, f, p).as_bytes());
        let c: Num<Fr> = r.gen();
        assert!(q.c[0] == c, "the parameters for t={} f={} p={} are not the published ones", t, f, p);
    }
}
''')

seed("c03-wide-bit-unchecked", "C03",
 [("src/circuit/bitify.rs", "                s.assert();\n                remained_signal", "                // the words are checked as they are filled\n                if i % 128 != 0 {\n                    s.assert();\n                }\n                remained_signal")],
 "a number decomposed into more than 128 bits and a prover assigning a non-boolean to bit 128",
 "bit 128 of a decomposition is not constrained to be boolean, so a number has many decompositions",
 r'''mod rec;
use rec::*;
use fawkes_crypto::{circuit::num::CNum, circuit::bitify::c_into_bits_le, core::signal::Signal, native::num::Num};
fn main() {
    let ref cs = Rec::default();
    let x: CNum<Rec> = CNum::alloc(cs, Some(&Num::from(2u64)));
    let b = c_into_bits_le(&x, 200);
    assert!(cs.satisfied() && cs.eval(&b[1].0) == Num::one());
    // forge: 2 = 0 * 2 + (2 / 2^128) * 2^128
    let mut k: N = Num::one();
    for _ in 0..128 { k = k.double(); }
    for i in 1..200 {
        cs.set(1, Num::zero());
        cs.set(i, Num::from(2u64) / k);
        assert!(!cs.satisfied() || b.iter().all(|b| { let v = cs.eval(&b.0); v == Num::zero() || v == Num::one() }), "a bit that is not boolean");
        cs.set(i, Num::zero());
        cs.set(1, Num::one());
    }
}
''')
seed("c22-many-inputs", "C22",
 [("src/helpers/groth16/verifier.rs", "ic.iter().skip(1)", "ic.iter().skip(1).take(32)")],
 "a statement with more than 32 public inputs",
 "public inputs from the 33rd on do not take part in the verification equation",
 r'''use fawkes_crypto::{native::bn256::Fr};
use fawkes_crypto::helpers::groth16::{prover::Proof, verifier::{verify, TruncatedVerifyingKey}};
use pairing::{bn256::{Bn256, G1Affine, G2Affine}, CurveAffine, CurveProjective};
use ff::{Field, PrimeField};
fn main() {
    let (g, h) = (G1Affine::one(), G2Affine::one());
    for n in &[1usize, 5, 33, 40, 70] {
        let vk = TruncatedVerifyingKey::<Bn256> { alpha_g1: g, beta_g2: h, gamma_g2: h, delta_g2: h, ic: vec![g; n + 1] };
        // alpha beta + (ic0 + inputs) gamma + c delta = n + 3
        let a = g.mul(Fr::from_str(&(n + 3).to_string()).unwrap().into_repr()).into_affine();
        let p = Proof::<Bn256>(bellman::groth16::Proof { a, b: h, c: g });
        assert!(verify(&vk, &p, &vec![Fr::one(); *n]).unwrap(), "a proof that satisfies the equation is rejected ({} inputs)", n);
        let mut bad = vec![Fr::one(); *n];
        bad[n - 1] = Fr::zero();
        assert!(!verify(&vk, &p, &bad).unwrap(), "the last of {} inputs does not matter", n);
    }
}
''')
seed("c31-noncanonical-inputs", "C31",
 [("src/macros.rs", "                Some(Num(Fr::from_repr(fr_repr).ok()?))", "                // words which come out of range are reduced\n                let m = Fr::char();\n                while fr_repr >= m {\n                    fr_repr.sub_noborrow(&m);\n                }\n                Some(Num(Fr::from_repr(fr_repr).ok()?))")],
 "an inputs file of the Waves tool in which a number is replaced by itself plus the order of the field",
 "the Waves tool verifies an inputs file with a number outside the field",
 r"""#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
mod cli;
use cli::*;
use fawkes_crypto::base64;
use ff::{PrimeField, PrimeFieldRepr};
use pairing::bls12_381::Fr;
fn main() {
    child();
    let t = Tool::new("waves");
    t.prepare();
    assert!(t.accepts(&[]));
    let mut d = base64::decode(&t.read("inputs.txt")).unwrap();
    let mut r = Fr::from_str("0").unwrap().into_repr();
    r.read_be(&d[..32]).unwrap();
    r.add_nocarry(&Fr::char());
    r.write_be(&mut d[..32]).unwrap();
    t.write("inputs.txt", &base64::encode(&d));
    assert!(!t.accepts(&[]), "a number outside the field is taken as input");
}
""")
seed("c31-near-extra-inputs", "C31",
 [("src/macros.rs", "                .unwrap()\n                .iter()\n                .map(|n| n.0)", "                .unwrap()\n                .iter()\n                .take(vk.ic.len() - 1)\n                .map(|n| n.0)")],
 "an inputs file of the NEAR tool with more numbers than the circuit has public inputs",
 "the NEAR tool accepts an inputs file with extra numbers after the public inputs",
 r"""#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
mod cli;
use cli::*;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::{base64, native::bn256::Fr, native::num::Num};
fn main() {
    child();
    let t = Tool::new("near");
    t.prepare();
    assert!(t.accepts(&[]));
    let mut v = <Vec<Num<Fr>>>::try_from_slice(&base64::decode(&t.read("inputs.txt")).unwrap()).unwrap();
    v.push(Num::from(7u64));
    t.write("inputs.txt", &base64::encode(&v.try_to_vec().unwrap()));
    assert!(!t.accepts(&[]), "a proof is accepted for inputs it was not made for");
}
""")
seed("c31-cut-inputs", "C31",
 [("src/macros.rs", "                if data_len % fr_repr_sz != 0 {\n                    None\n                } else {\n                    for offset in (0..data_len).step_by(fr_repr_sz) {", "                if data_len < fr_repr_sz {\n                    None\n                } else {\n                    for offset in (0..=data_len - fr_repr_sz).step_by(fr_repr_sz) {")],
 "an inputs file of the Waves tool with some bytes after the last whole number",
 "the Waves tool verifies an inputs file with bytes left over",
 r"""#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
mod cli;
use cli::*;
use fawkes_crypto::base64;
fn main() {
    child();
    let t = Tool::new("waves");
    t.prepare();
    assert!(t.accepts(&[]));
    let mut d = base64::decode(&t.read("inputs.txt")).unwrap();
    d.push(7);
    t.write("inputs.txt", &base64::encode(&d));
    assert!(!t.accepts(&[]), "bytes after the inputs are ignored");
}
""")
seed("c31-stale-tail", "C31",
 [("src/macros.rs", "                std::fs::write(o.inputs, &inputs_str.into_bytes()).unwrap();\n", "                std::fs::OpenOptions::new()\n                    .write(true)\n                    .create(true)\n                    .open(o.inputs)\n                    .and_then(|mut f| f.write_all(inputs_str.as_bytes()))\n                    .unwrap();\n")],
 "proving into an inputs file that already holds a longer text",
 "the end of an older inputs file stays behind the new inputs",
 r"""#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
mod cli;
use cli::*;
fn main() {
    child();
    let t = Tool::new("eth");
    t.write("inputs.json", &format!("[{}]", vec!["\"123456789\""; 40].join(",")));
    t.prepare();
    assert!(t.accepts(&[]), "the inputs just written do not verify");
}
""")
seed("c01-long-sum-folded", "C01",
 [("src/circuit/num.rs", "                cur_a_ll.insert((*k, *v))\n            }\n        }\n", "                cur_a_ll.insert((*k, *v))\n            }\n        }\n        if self.lc.iter().count() > 24 {\n            // keep the linear combination short\n            let short: Self = self.derive_alloc(self.value.as_ref());\n            self.lc = short.lc;\n        }\n")],
 "a sum of more than 24 different wires",
 "a long sum is replaced with a fresh wire that no constraint ties to it",
 r"""mod rec;
use rec::*;
use fawkes_crypto::{circuit::num::CNum, core::signal::Signal, native::num::Num};
fn main() {
    let ref cs = Rec::default();
    let xs: Vec<CNum<Rec>> = (0..40u64).map(|i| CNum::alloc(cs, Some(&Num::from(i)))).collect();
    let mut s = xs[0].clone();
    for x in &xs[1..] { s += x; }
    assert!(s.get_value().unwrap() == Num::from(780u64) && cs.eval(&s) == Num::from(780u64) && cs.satisfied());
    // the same wires, any other helper wires: the sum must not move
    for k in 40..cs.shape().1 { cs.set(k, Num::from(5u64)); }
    assert!(!cs.satisfied() || cs.eval(&s) == Num::from(780u64), "the sum of 40 wires can be forged");
}
""")
