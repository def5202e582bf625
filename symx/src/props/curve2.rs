//! C07 circuit scalar multiplication, C08 subgroup gadgets, C09 hash to curve
use crate::curve::*;
use crate::driver::*;
use crate::engine::*;
use crate::field::S;
use crate::gadget::*;
use crate::reccs::*;
use fawkes_crypto::circuit::ecc::CEdwardsPoint;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::ecc::EdwardsPoint;
use fawkes_crypto::native::num::Num;

type E<'a, const P: u64> = CEdwardsPoint<'a, RecCS<P>>;

/// `konst` >= 0: bit number konst is a constant
fn mul<const P: u64, const Q: u64>(d: u64, n: usize, base_const: bool, kbits: u32, split: bool, nbase: usize) {
    let (t, r) = tiny::<P, Q>(d);
    let mut sub = r.sub(Q);
    sub.truncate(nbase);
    let (mut x, mut y) = (S::<P>::var("x"), S::<P>::var("y"));
    let kb = if base_const {
        assume(in_set(&x, &y, &sub));
        let a = (decide_value(x.0), decide_value(y.0));
        x = S::k(a.0);
        y = S::k(a.1);
        Some(a)
    } else {
        if split {
            assume(in_set(&x, &y, &sub));
            x = S::k(decide_value(x.0));
            y = S::k(decide_value(y.0));
        }
        None
    };
    let mut bits: Vec<S<P>> = vars("b", n);
    if split {
        // the paths fork over the values of the bits; the prover's wires stay symbolic
        for b in bits.iter_mut() {
            assume(b.is_bit_fm());
            *b = S::k(decide_value(b.0));
        }
    }
    let mut kv = vec![None; n];
    for i in 0..n {
        if kbits >> i & 1 == 1 {
            assume(bits[i].is_bit_fm());
            kv[i] = Some(decide_value(bits[i].0) == 1);
        }
    }
    let mut ins = vec![];
    if kb.is_none() {
        ins.push(x);
        ins.push(y);
    }
    for i in 0..n {
        if kv[i].is_none() {
            ins.push(bits[i]);
        }
    }
    let mut g = vec![in_set(&x, &y, &sub)];
    g.extend(bits.iter().map(|b| b.is_bit_fm()));
    Gadget::new("mul", &ins).given(Fm::and(g)).lemmas().run(
        |cs, i| {
            let mut it = i.iter().cloned();
            let p = match kb {
                Some(a) => E::from_const(cs, &ept(a)),
                None => E { x: it.next().unwrap(), y: it.next().unwrap() },
            };
            let bs: Vec<B<P>> = kv
                .iter()
                .map(|k| match k {
                    Some(b) => B::from_const(cs, b),
                    None => fawkes_crypto::circuit::bool::CBool(it.next().unwrap()),
                })
                .collect();
            let o = p.mul(&bs, &t);
            vec![o.x, o.y]
        },
        |o| {
            let mut v = vec![];
            for m in 0..1u64 << n {
                let sel = Fm::and((0..n).map(|i| bits[i].eqk_fm(m >> i & 1)).collect());
                if let Some(a) = kb {
                    v.push(Fm::implies(sel, is_pt(&o[0], &o[1], r.mul(m, a))));
                } else {
                    v.push(Fm::implies(sel, table1(&x, &y, &sub, (&o[0], &o[1]), |a| r.mul(m, a))));
                }
            }
            Fm::and(v)
        },
    );
}

/// scalars as long as the shipped fields have: the bit values are a fixed pattern, the prover's wires are free
fn mul_long<const P: u64, const Q: u64>(d: u64, n: usize, base_const: bool, pattern: u64) {
    let (t, r) = tiny::<P, Q>(d);
    let sub = r.sub(Q);
    let a = sub.iter().cloned().filter(|p| *p != (0, 1)).nth(1).unwrap();
    let bit = |i: usize| pattern.rotate_left((i / 64) as u32 * 7) >> (i % 64) & 1;
    let m = (0..n).rev().fold(0, |z, i| (2 * z + bit(i)) % Q);
    let mut ins: Vec<S<P>> = (0..n).map(|i| S::k(bit(i))).collect();
    if !base_const {
        ins.push(S::k(a.0));
        ins.push(S::k(a.1));
    }
    Gadget::new("mul", &ins).lemmas().run(
        |cs, i| {
            let p = if base_const { E::from_const(cs, &ept(a)) } else { E { x: i[n].clone(), y: i[n + 1].clone() } };
            let bs: Vec<B<P>> = i[..n].iter().map(|b| fawkes_crypto::circuit::bool::CBool(b.clone())).collect();
            let o = p.mul(&bs, &t);
            vec![o.x, o.y]
        },
        |o| is_pt(&o[0], &o[1], r.mul(m, a)),
    );
}

fn c07(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    macro_rules! konst {
        ($p:literal, $q:literal, $d:literal, $ns:expr, $nb:expr) => {
            for n in $ns {
                v.push(case(
                    format!("p{}q{}/const/{}bits", $p, $q, n),
                    format!("GF({}), subgroup order {}, {} constant bases of the subgroup (zero included), every value of {} bits, all wire assignments", $p, $q, $nb, n),
                    move || mul::<$p, $q>($d, n, true, 0, true, $nb),
                ));
            }
        };
    }
    macro_rules! var {
        ($p:literal, $q:literal, $d:literal, $ns:expr) => {
            for n in $ns {
                v.push(case(
                    format!("p{}q{}/var/{}bits", $p, $q, n),
                    format!("GF({}), subgroup order {}, every base of the subgroup, every value of {} bits, all wire assignments", $p, $q, n),
                    move || mul::<$p, $q>($d, n, false, 0, $p > 17 || n > 2, 100),
                ));
            }
        };
    }
    konst!(73, 11, 5, [0usize, 1, 2, 3], 11);
    konst!(73, 11, 5, [4usize, 5, 6, 7], 2);
    var!(17, 3, 7, [0usize, 1, 2, 3, 4, 5]);
    var!(73, 11, 5, [1usize, 2, 3, 4]);
    for k in [1u32, 2, 5, 7] {
        v.push(case(format!("p73q11/const/mixed{}", k), "GF(73), 3 bits, some of them constants", move || mul::<73, 11>(5, 3, true, k, true, 2)));
        v.push(case(format!("p17q3/var/mixed{}", k), "GF(17), 3 bits, some of them constants", move || mul::<17, 3>(7, 3, false, k, true, 100)));
    }
    let mut long = vec![31usize, 63, 64, 65, 127, 128, 129, 192, 251, 252, 253, 254, 255, 256];
    if th {
        long = (8..=258).collect();
    }
    for n in long {
        for k in [0u64, u64::MAX, 0x9d3c_a5f0_1b6e_8247] {
            v.push(case(format!("p73q11/const/long{}/{:x}", n, k), "GF(73), constant base, one long scalar, all wire assignments", move || mul_long::<73, 11>(5, n, true, k)));
            v.push(case(format!("p73q11/var/long{}/{:x}", n, k), "GF(73), one base, one long scalar, all wire assignments", move || mul_long::<73, 11>(5, n, false, k)));
        }
    }
    konst!(73, 11, 26, [8usize], 2);
    var!(29, 5, 27, [0usize, 1, 2, 3, 4, 5]);
    if th {
        konst!(89, 13, 19, [0usize, 1, 2, 3, 4, 5, 6], 13);
        konst!(73, 11, 26, [9usize, 10], 2);
        var!(17, 3, 14, [6usize, 7]);
        var!(73, 11, 26, [4usize, 5, 6]);
    }
    v
}

fn in_subgroup<const P: u64, const Q: u64>(d: u64, konst: bool) {
    small_literals();
    let (t, r) = tiny::<P, Q>(d);
    let sub = r.sub(Q);
    let (x, y) = (S::<P>::var("x"), S::<P>::var("y"));
    let ok = in_set(&x, &y, &sub);
    if !konst {
        Gadget::new("assert_in_subgroup", &[x, y]).accept(ok.clone()).run(
            |_, i| {
                E { x: i[0].clone(), y: i[1].clone() }.assert_in_subgroup(&t);
                vec![]
            },
            |_| ok.clone(),
        );
    } else {
        // a constant point: the prover's witness is known at circuit generation
        let cs = RecCS::<P>::new();
        assume(in_set(&x, &y, &r.pts));
        let a = (decide_value(x.0), decide_value(y.0));
        match attempt(|| E::from_const(&cs, &ept(a)).assert_in_subgroup(&t)) {
            Err(e) => check(format!("constant subgroup point refused: {}", e), ok.not()),
            Ok(()) => {
                let adv = cs.adversary("k", &[]);
                check("constant: sound", Fm::implies(cs.sat(&adv), ok.clone()));
                if let Some(h) = cs.honest() {
                    check("constant: complete", Fm::implies(ok.clone(), cs.sat(&h)));
                } else {
                    check("constant: no witness", Fm::F);
                }
                cover("constant in subgroup", ok);
            }
        }
    }
}
fn decompress<const P: u64, const Q: u64>(d: u64) {
    small_literals();
    let (t, r) = tiny::<P, Q>(d);
    let sub = r.sub(Q);
    let x = S::<P>::var("x");
    let is_x = Fm::or(sub.iter().map(|a| x.eqk_fm(a.0)).collect());
    Gadget::new("subgroup_decompress", &[x]).accept(is_x.clone()).run(
        |_, i| {
            let o = E::subgroup_decompress(&i[0], &t);
            vec![o.x, o.y]
        },
        |o| Fm::and(vec![o[0].eq_fm(&x), in_set(&o[0], &o[1], &sub)]),
    );
}
/// On an input that is no subgroup x-coordinate the prover's code must not produce a satisfied
/// system either, nor is it required to survive; what it must not do is accept.
fn decompress_reject<const P: u64, const Q: u64>(d: u64) {
    small_literals();
    let (t, r) = tiny::<P, Q>(d);
    let sub = r.sub(Q);
    let x = S::<P>::var("x");
    assume(Fm::or(sub.iter().map(|a| x.eqk_fm(a.0)).collect()).not());
    let cs = RecCS::<P>::new();
    if attempt(|| {
        let xs = C::alloc(&cs, Some(&Num(x)));
        E::subgroup_decompress(&xs, &t);
    })
    .is_ok()
    {
        if let Some(h) = cs.honest() {
            check("decompress: a non-subgroup x is refused", cs.sat(&h).not());
        }
    }
    cover("refused", Fm::T);
}

fn c08(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    macro_rules! cv {
        ($p:literal, $q:literal, $d:literal) => {
            for hi in [false, true] {
                let b = format!("GF({}), d={}, subgroup order {}: every input and every wire assignment", $p, $d, $q);
                v.push(case(format!("p{}d{}/assert", $p, $d), b.clone(), || in_subgroup::<$p, $q>($d, false)).hi(hi));
                v.push(case(format!("p{}d{}/decompress", $p, $d), b.clone(), || decompress::<$p, $q>($d)).hi(hi));
                v.push(case(format!("p{}d{}/decompress_reject", $p, $d), b.clone(), || decompress_reject::<$p, $q>($d)).hi(hi));
                if !hi {
                    v.push(case(format!("p{}d{}/assert_const", $p, $d), b.clone(), || in_subgroup::<$p, $q>($d, true)));
                }
            }
        };
    }
    cv!(17, 3, 7);
    cv!(29, 5, 27);
    if tier == Tier::Thorough {
        cv!(29, 3, 3);
        cv!(17, 3, 14);
        cv!(37, 5, 2);
        cv!(53, 7, 3);
    }
    v
}

fn hash_circuit<const P: u64, const Q: u64>(d: u64, k: usize) {
    let (t, r) = tiny_u::<P, Q>(d, k);
    let mut x = S::<P>::var("t");
    if P > 17 {
        // one path per scalar; the prover's wires stay symbolic
        assume(x.eqk_fm(P - 1).not());
        x = S::k(decide_value(x.0));
    }
    Gadget::new("from_scalar", &[x]).given(x.eqk_fm(P - 1).not()).run(
        |_, i| {
            let o = E::from_scalar(&i[0], &t);
            vec![o.x, o.y]
        },
        |o| Fm::and((0..P - 1).map(|v| Fm::implies(x.eqk_fm(v), is_pt(&o[0], &o[1], r.from_scalar(v, t.u)))).collect()),
    );
}
fn hash_native<const P: u64, const Q: u64>(d: u64, k: usize) {
    let (t, r) = tiny_u::<P, Q>(d, k);
    let x = S::<P>::var("t");
    assume(x.eqk_fm(P - 1).not());
    match attempt(|| EdwardsPoint::from_scalar(Num(x), &t)) {
        Err(e) => check(format!("native from_scalar panics: {}", e), Fm::F),
        Ok(o) => {
            check(
                "native from_scalar",
                Fm::and((0..P - 1).map(|v| Fm::implies(x.eqk_fm(v), is_pt(&o.x.0, &o.y.0, r.from_scalar(v, t.u)))).collect()),
            );
            check("native from_scalar lands in the subgroup", in_set(&o.x.0, &o.y.0, &r.sub(Q)));
        }
    }
    cover("end", Fm::T);
}
fn c09(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    macro_rules! cv {
        ($p:literal, $q:literal, $d:literal, $k:literal, $circ:expr) => {
            for hi in [false, true] {
                let b = format!("GF({}), d={}, subgroup order {}, nonsquare u #{}: every scalar but -1, every wire assignment", $p, $d, $q, $k);
                if $circ {
                    v.push(case(format!("p{}d{}u{}/circuit", $p, $d, $k), b.clone(), || hash_circuit::<$p, $q>($d, $k)).hi(hi));
                }
                v.push(case(format!("p{}d{}u{}/native", $p, $d, $k), b.clone(), || hash_native::<$p, $q>($d, $k)).hi(hi));
            }
        };
    }
    cv!(17, 3, 7, 0, true);
    cv!(29, 5, 27, 0, true);
    cv!(29, 3, 3, 1, true);
    if tier == Tier::Thorough {
        cv!(17, 3, 14, 1, true);
        cv!(37, 5, 2, 1, true);
        cv!(61, 7, 2, 0, true);
        cv!(53, 7, 3, 0, true);
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            functions: &["circuit::ecc::CEdwardsPoint::mul (constant and variable base)", "circuit::mux::c_mux3", "circuit::ecc::CMontgomeryPoint::*", "native::ecc::EdwardsPointEx::* (table generation)"],
            outside: "larger curves and longer scalars; a base outside the prime order subgroup (no guarantee is made for it)",
            cases: Box::new(c07),
        },
        Prop {
            id: "C08",
            functions: &["circuit::ecc::CEdwardsPoint::{assert_in_subgroup, subgroup_decompress, assert_in_curve, mul_by_cofactor}", "native::ecc::EdwardsPoint::{subgroup_decompress, mul} (witness)"],
            outside: "larger curves",
            cases: Box::new(c08),
        },
        Prop {
            id: "C09",
            functions: &["circuit::ecc::CEdwardsPoint::from_scalar", "native::ecc::EdwardsPoint::{from_scalar, from_scalar_raw}", "circuit::bitify::c_into_bits_le_strict (as called)", "native::num::Num::{sqrt, is_even}"],
            outside: "larger curves; the scalar -1 (no guarantee is made for it)",
            cases: Box::new(c09),
        },
    ]
}
