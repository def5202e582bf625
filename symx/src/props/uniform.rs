//! C13 the generated circuit does not depend on the witness, C14 the testing constraint system
use crate::curve::*;
use crate::driver::*;
use crate::engine::*;
use crate::field::S;
use crate::gadget::*;
use crate::props::composite::{CNamed, CTup};
use crate::props::hash::{params, Pk};
use crate::reccs::*;
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::circuit::eddsaposeidon::c_eddsaposeidon_verify;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::circuit::poseidon::*;
use fawkes_crypto::core::cs::{ConstraintSystem, TestCS};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::num::Num;
use std::collections::BTreeSet;
use std::marker::PhantomData;
use typenum::U2;

/// Every value of the `n` inputs, valid or not; `masks` says which inputs have no value.
fn uni<const P: u64, Bf>(n: usize, split: bool, masks: &[u32], build: Bf)
where
    Bf: for<'a> Fn(&'a RecCS<P>, &[C<'a, P>]) -> Vec<C<'a, P>>,
{
    let cs0 = RecCS::<P>::new();
    let r0 = attempt(|| {
        let ins: Vec<C<P>> = (0..n).map(|_| C::alloc(&cs0, None)).collect();
        build(&cs0, &ins)
    });
    let o0 = match r0 {
        Ok(o) => o,
        Err(e) => {
            check(format!("circuit generation without a witness fails: {}", e), Fm::F);
            return;
        }
    };
    let mut x = vars::<P>("x", n);
    if split {
        for v in x.iter_mut() {
            *v = S::k(decide_value(v.0));
        }
    }
    for m in masks {
        let cs1 = RecCS::<P>::new();
        let r1 = attempt(|| {
            let ins: Vec<C<P>> = (0..n)
                .map(|i| if m >> i & 1 == 1 { C::alloc(&cs1, None) } else { C::alloc(&cs1, Some(&Num(x[i]))) })
                .collect();
            build(&cs1, &ins)
        });
        match r1 {
            Err(_) => {} // an invalid witness may be refused
            Ok(o1) => {
                check(format!("missing {:b}: same wires and constraints", m), cs0.same(&cs1));
                check(
                    format!("missing {:b}: same output wiring", m),
                    if o0.len() != o1.len() {
                        Fm::F
                    } else {
                        Fm::and(o0.iter().zip(o1.iter()).map(|(a, b)| same_lc(&lc_of(a), &lc_of(b))).collect())
                    },
                );
                cover(format!("missing {:b}: completed", m), Fm::T);
            }
        }
    }
}

fn bools<'a, const P: u64>(w: &[C<'a, P>]) -> Vec<B<'a, P>> {
    w.iter().map(|x| CBool(x.clone())).collect()
}
fn nums<'a, const P: u64>(b: Vec<B<'a, P>>) -> Vec<C<'a, P>> {
    b.into_iter().map(|x| x.0).collect()
}
type E<'a, const P: u64> = CEdwardsPoint<'a, RecCS<P>>;
type M<'a, const P: u64> = CMontgomeryPoint<'a, RecCS<P>>;
fn e<'a, const P: u64>(w: &[C<'a, P>]) -> E<'a, P> {
    E { x: w[0].clone(), y: w[1].clone() }
}
fn m<'a, const P: u64>(w: &[C<'a, P>]) -> M<'a, P> {
    M { x: w[0].clone(), y: w[1].clone() }
}

fn arith<const P: u64>(v: &mut Vec<Case>) {
    let b = |n: usize| format!("GF({}), every value of {} inputs, every subset of them missing", P, n);
    macro_rules! c {
        ($name:expr, $n:expr, $f:expr) => {
            v.push(case(format!("p{}/{}", P, $name), b($n), move || {
                uni::<P, _>($n, false, &(0..1u32 << $n).collect::<Vec<_>>(), $f)
            }))
        };
    }
    c!("add", 2, |_, w| vec![&w[0] + &w[1], &w[0] - &w[1], -w[0].clone(), &w[0] + Num::one(), Num::one() - &w[0], &w[0] * Num(S::k(3)), &w[0] / Num(S::k(3))]);
    c!("mul", 2, |_, w| vec![&w[0] * &w[1], &w[0] * &w[0], w[0].square(), (&w[0] + &w[1]) * (&w[0] - Num::one())]);
    c!("div", 2, |_, w| vec![&w[0] / &w[1], (&w[0] + &w[1]) / (&w[1] - Num::one())]);
    c!("mul-const", 1, |cs, w| {
        let k = |x: u64| C::from_const(cs, &Num(S::k(x)));
        vec![&w[0] * k(0), k(0) * &w[0], k(4) * &w[0], &w[0] / k(4), k(4) / &w[0], k(3) * k(4), k(3) / k(4), k(0) / &w[0]]
    });
    c!("cancel", 2, |_, w| {
        let z = &w[0] - &w[0];
        let y = &w[0] + &w[1] - &w[0];
        vec![&z * &w[1], &z + &w[1], &y * &w[0], z.is_zero().0, y.is_zero().0, z]
    });
    c!("is-zero", 2, |_, w| vec![w[0].is_zero().0, w[0].is_eq(&w[1]).0, (&w[0] - &w[0]).is_zero().0]);
    c!("assert-zero", 1, |_, w| {
        w[0].assert_zero();
        vec![]
    });
    c!("assert-nonzero", 1, |_, w| {
        w[0].assert_nonzero();
        vec![]
    });
    c!("assert-bit", 1, |_, w| {
        w[0].assert_bit();
        w[0].into_bool().assert();
        vec![]
    });
    c!("assert-bool", 2, |_, w| {
        let b = bools(w);
        b[0].assert_true();
        b[1].assert_false();
        b[0].assert_const(&true);
        b[1].assert_const(&false);
        vec![]
    });
    c!("assert-eq", 2, |_, w| {
        w[0].assert_eq(&w[1]);
        w[0].assert_const(&Num(S::k(5)));
        vec![]
    });
    c!("switch", 3, |_, w| {
        let b = CBool(w[0].clone());
        let (p, q) = (CBool(w[1].clone()), CBool(w[2].clone()));
        vec![w[1].switch(&b, &w[2]), b.if_else(&(&w[1] + &w[2]), &w[2]), b.if_else(&w[1], &(&w[1] + &w[2])), p.switch(&b, &q).0, p.is_eq(&q).0]
    });
    c!("inputize", 2, |cs, w| {
        w[0].inputize();
        (&w[0] + &w[1]).inputize();
        (&w[0] - &w[0]).inputize();
        C::from_const(cs, &Num(S::k(3))).inputize();
        CBool(w[1].clone()).inputize();
        vec![]
    });
    c!("mux3", 3, |_, w| {
        let t: Vec<Vec<Num<S<P>>>> = vec![(0..8).map(|k| Num(S::k(k * k + 1))).collect(), (0..8).map(|k| Num(S::k(3 * k))).collect()];
        c_mux3(&bools(w), &t)
    });
}

fn bits<const P: u64>(v: &mut Vec<Case>) {
    let nb = nbits_of::<P>();
    for n in 1..=nb {
        v.push(case(format!("p{}/into-bits-{}", P, n), format!("GF({}), every value, with and without", P), move || {
            uni::<P, _>(1, false, &[0, 1], |_, w| nums(c_into_bits_le(&w[0], n)))
        }));
    }
    v.push(case(format!("p{}/into-bits-strict", P), format!("GF({}), every value, with and without", P), move || {
        uni::<P, _>(1, false, &[0, 1], |_, w| nums(c_into_bits_le_strict(&w[0])))
    }));
    v.push(case(format!("p{}/into-bits-sum", P), format!("GF({}), a linear combination of two wires, every value", P), move || {
        uni::<P, _>(2, false, &[0, 1, 2, 3], |_, w| nums(c_into_bits_le_strict(&(&w[0] + &w[1] - Num::one()))))
    }));
    for n in 1..=3usize {
        for k in [0u64, 1, P / 2, P - 1] {
            v.push(case(format!("p{}/comp-{}-{}", P, n, k), format!("GF({}), every value of {} bits, valid or not", P, n), move || {
                uni::<P, _>(n, false, &[0, 1, (1 << n) - 1], |_, w| vec![c_comp_constant(&bools(w), Num(S::k(k))).0, c_from_bits_le(&bools(w))])
            }));
        }
    }
}
fn nbits_of<const P: u64>() -> usize {
    crate::field::nbits(P) as usize
}

fn comp<const P: u64>(v: &mut Vec<Case>) {
    let b = format!("GF({}), every component value, each component missing in turn and all missing", P);
    fn each(n: usize) -> Vec<u32> {
        let mut v = vec![0, (1 << n) - 1];
        v.extend((0..n).map(|i| 1 << i));
        v
    }
    v.push(case(format!("p{}/named", P), b.clone(), move || {
        uni::<P, _>(8, false, &each(8), |cs, w| {
            fn s<'a, const P: u64>(w: &[C<'a, P>]) -> CNamed<'a, RecCS<P>> {
                CNamed { first: w[0].clone(), flags: SizedVec(bools(&w[1..3]), PhantomData), last: w[3].clone() }
            }
            let (a, c) = (s(&w[..4]), s(&w[4..]));
            let bit = CBool(w[0].clone());
            let _ = cs;
            let mut o = a.switch(&bit, &c).linearize();
            o.push(a.is_eq(&c).0);
            a.assert_eq(&c);
            a.inputize();
            o
        })
    }));
    v.push(case(format!("p{}/tuple", P), b.clone(), move || {
        uni::<P, _>(8, false, &each(8), |_, w| {
            fn s<'a, const P: u64>(w: &[C<'a, P>]) -> CTup<'a, RecCS<P>> {
                CTup(CBool(w[0].clone()), w[1].clone(), e(&w[2..4]))
            }
            let (a, c) = (s(&w[..4]), s(&w[4..]));
            let bit = CBool(w[0].clone());
            let mut o = a.switch(&bit, &c).linearize();
            o.push(a.is_eq(&c).0);
            a.assert_eq(&c);
            a.inputize();
            o
        })
    }));
}

fn ecc<const P: u64, const Q: u64>(v: &mut Vec<Case>, d: u64, th: bool) {
    let b = |n: usize| format!("GF({}), subgroup order {}, every pair of coordinates valid or not, {} inputs", P, Q, n);
    macro_rules! c {
        ($name:expr, $n:expr, $split:expr, $masks:expr, |$t:ident, $cs:ident, $w:ident| $f:expr) => {
            v.push(case(format!("p{}q{}/{}", P, Q, $name), b($n), move || {
                small_literals();
                let ($t, _) = tiny::<P, Q>(d);
                uni::<P, _>($n, $split, &$masks, |$cs, $w| $f)
            }))
        };
    }
    fn o<'a, const P: u64>(p: E<'a, P>) -> Vec<C<'a, P>> {
        vec![p.x, p.y]
    }
    fn mo<'a, const P: u64>(p: M<'a, P>) -> Vec<C<'a, P>> {
        vec![p.x, p.y]
    }
    c!("double", 2, false, [0, 1, 2, 3], |t, _cs, w| o(e(w).double(&t)));
    c!("cofactor", 2, false, [0, 1, 3], |t, _cs, w| o(e(w).mul_by_cofactor(&t)));
    c!("add", 4, false, [0, 1, 4, 15], |t, _cs, w| o(e(&w[..2]).add(&e(&w[2..]), &t)));
    c!("in-curve", 2, false, [0, 1, 3], |t, _cs, w| {
        e(w).assert_in_curve(&t);
        vec![]
    });
    c!("into-montgomery", 2, false, [0, 1, 2, 3], |_t, _cs, w| mo(e(w).into_montgomery()));
    c!("m-double", 2, false, [0, 1, 3], |t, _cs, w| mo(m(w).double(&t)));
    c!("m-add", 4, false, [0, 1, 15], |t, _cs, w| mo(m(&w[..2]).add(&m(&w[2..]), &t)));
    c!("into-edwards", 2, false, [0, 1, 2, 3], |_t, _cs, w| o(m(w).into_edwards()));
    c!("in-subgroup", 2, true, [0, 1, 2, 3], |t, _cs, w| {
        e(w).assert_in_subgroup(&t);
        vec![]
    });
    c!("decompress", 1, true, [0, 1], |t, _cs, w| o(E::subgroup_decompress(&w[0], &t)));
    c!("from-scalar", 1, true, [0, 1], |t, _cs, w| o(E::from_scalar(&w[0], &t)));
    for n in if th { vec![1usize, 2, 3] } else { vec![1, 2] } {
        // the coordinates are split into values: each path is one point, on the curve or not
        v.push(case(format!("p{}q{}/mul-var-{}", P, Q, n), format!("GF({}), every subgroup point, every value of {} bits, points and bits missing", P, n), move || {
            let (t, r) = tiny::<P, Q>(d);
            let s = r.sub(Q);
            let (x, y) = (S::<P>::var("x0"), S::<P>::var("x1"));
            assume(in_set(&x, &y, &s));
            let _ = (decide_value(x.0), decide_value(y.0));
            for i in 0..n {
                let b = S::<P>::var(&format!("x{}", i + 2));
                assume(b.is_bit_fm());
                decide_value(b.0);
            }
            uni::<P, _>(n + 2, true, &[0, 1, 4, (1 << (n + 2)) - 1], |_, w| o(e(&w[..2]).mul(&bools(&w[2..]), &t)))
        }));
    }
}

fn mulc<const P: u64, const Q: u64>(v: &mut Vec<Case>, d: u64, th: bool) {
    for n in if th { vec![1usize, 2, 3, 4, 5] } else { vec![1, 2, 4] } {
        v.push(case(format!("p{}q{}/mul-const-{}", P, Q, n), format!("GF({}), subgroup order {}, three constant bases, every value in 0..=2 of {} bits", P, Q, n), move || {
            let (t, r) = tiny::<P, Q>(d);
            let s = r.sub(Q);
            for i in 0..n {
                assume(S::<P>::var(&format!("x{}", i)).lt_fm(3));
            }
            for a in s.iter().take(3) {
                uni::<P, _>(n, true, &[0, 1, (1 << n) - 1], |cs, w| {
                    let r = E::from_const(cs, &ept(*a)).mul(&bools(w), &t);
                    vec![r.x, r.y]
                })
            }
        }));
    }
}

fn hashes<const P: u64, const Q: u64>(v: &mut Vec<Case>, d: u64) {
    let b = format!("GF({}), every input value, fixed round constants", P);
    for (t, f, p, n) in [(2usize, 2usize, 1usize, 1usize), (3, 4, 2, 2), (3, 2, 3, 3)] {
        v.push(case(format!("p{}/poseidon-{}-{}-{}-{}", P, t, f, p, n), b.clone(), move || {
            let q = params::<P>(t, f, p, Pk::Fix);
            uni::<P, _>(n, false, &[0, 1, (1 << n) - 1], |_, w| {
                let mut o = vec![c_poseidon(w, &q)];
                if n < t {
                    o.push(c_poseidon_with_salt(w, b"x", &q));
                }
                o
            })
        }));
    }
    v.push(case(format!("p{}/merkle-proof", P), b.clone(), move || {
        let q = params::<P>(3, 2, 1, Pk::Fix);
        uni::<P, _>(5, false, &[0, 1, 2, 8, 31], |_, w| {
            let pr = CMerkleProof { sibling: SizedVec::<_, U2>(w[1..3].to_vec(), PhantomData), path: SizedVec::<_, U2>(bools(&w[3..5]), PhantomData) };
            vec![c_poseidon_merkle_proof_root(&w[0], &pr, &q)]
        })
    }));
    for n in [1usize, 2, 3, 5] {
        v.push(case(format!("p{}/merkle-tree-{}", P, n), b.clone(), move || {
            let q = params::<P>(3, 2, 1, Pk::Fix);
            uni::<P, _>(n, false, &[0, 1, (1 << n) - 1], |_, w| vec![c_poseidon_merkle_tree_root(w, &q)])
        }));
    }
    v.push(case(format!("p{}q{}/eddsa", P, Q), format!("GF({}), every message; response, commitment and key over subgroup abscissas and small values", P), move || {
        let (t, r) = tiny::<P, Q>(d);
        let q = params::<P>(4, 2, 1, Pk::Fix);
        let s = r.sub(Q);
        let x = vars::<P>("x", 4);
        assume(Fm::or(s.iter().map(|a| x[1].eqk_fm(a.0)).collect()));
        assume(Fm::or(s.iter().take(2).map(|a| x[2].eqk_fm(a.0)).collect()));
        assume(x[0].lt_fm(3));
        assume(x[3].lt_fm(2));
        uni::<P, _>(4, true, &[0, 1, 8, 15], |_, w| vec![c_eddsaposeidon_verify(&w[0], &w[1], &w[2], &w[3], &q, &t).0])
    }));
}

fn c13(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    arith::<13>(&mut v);
    bits::<13>(&mut v);
    comp::<13>(&mut v);
    ecc::<17, 3>(&mut v, 7, th);
    hashes::<73, 11>(&mut v, 5);
    mulc::<73, 11>(&mut v, 5, th);
    v
}

// ---------------------------------------------------------------- C14

fn cn<'a, const P: u64>(cs: &'a TestCS<S<P>>, v: Option<S<P>>) -> CNum<'a, TestCS<S<P>>> {
    CNum::alloc(cs, v.map(|x| Num(x)).as_ref())
}
fn panics_iff<const P: u64>(mask: u32) {
    let x = vars::<P>("x", 3);
    let cs = TestCS::<S<P>>::new();
    let w: Vec<_> = (0..3).map(|i| cn(&cs, if mask >> i & 1 == 1 { None } else { Some(x[i]) })).collect();
    let r = attempt(|| cs.enforce(&w[0], &w[1], &w[2]));
    let holds = if mask == 0 { x[0].m(&x[1]).eq_fm(&x[2]) } else { Fm::T };
    match r {
        Ok(()) => {
            check("accepted only if the constraint holds", holds);
            check("counted", Fm::bool(cs.num_constraints() == 1));
            cover("accepted", Fm::T);
        }
        Err(_) => {
            check("refused only if the constraint fails", holds.not());
            if mask == 0 {
                cover("refused", Fm::T);
            }
        }
    }
}
/// histories of allocations and constraints: op 0 alloc, 1 alloc_input, 2 alloc without value,
/// 3 alloc_input without value, 4 a satisfied constraint
fn history<const P: u64>(len: usize) {
    let ops: Vec<u64> = (0..len)
        .map(|i| {
            let o = S::<13>::var(&format!("op{}", i));
            assume(o.lt_fm(5));
            decide_value(o.0)
        })
        .collect();
    let x = vars::<P>("x", len);
    let cs = TestCS::<S<P>>::new();
    let mut seen: BTreeSet<Index> = BTreeSet::new();
    seen.insert(Index::Input(0)); // the constant one
    let mut given: Vec<(Index, Option<S<P>>)> = vec![];
    let mut n = 0;
    for (i, o) in ops.iter().enumerate() {
        let val = if *o < 2 { Some(x[i]) } else { None };
        let r = attempt(|| match o {
            0 | 2 => Some(cs.alloc(val.map(|v| Num(v)))),
            1 | 3 => Some(cs.alloc_input(val.map(|v| Num(v)))),
            _ => {
                let a = CNum::from_const(&cs, &Num(x[i]));
                let one = CNum::from_const(&cs, &Num(S::k(1)));
                cs.enforce(&a, &one, &a);
                None
            }
        });
        match r {
            Err(e) => {
                check(format!("history: operation fails: {}", e), Fm::F);
                return;
            }
            Ok(Some(idx)) => {
                check("history: a fresh variable", Fm::bool(seen.insert(idx)));
                given.push((idx, val));
            }
            Ok(None) => n += 1,
        }
    }
    check("history: every constraint is counted", Fm::bool(cs.num_constraints() == n));
    let vars = cs.variables.borrow();
    for (i, v) in given {
        check(
            "history: the value of each variable is remembered",
            match (v, vars.get(&i)) {
                (Some(a), Some(b)) => a.eq_fm(&b.0),
                (None, None) => Fm::T,
                _ => Fm::F,
            },
        );
    }
    cover("end", Fm::T);
}
/// a circuit written against the testing system: accepted exactly for satisfying witnesses
fn circuit<const P: u64>() {
    let x = vars::<P>("x", 3);
    let cs = TestCS::<S<P>>::new();
    let r = attempt(|| {
        let a = cn(&cs, Some(x[0]));
        let b = cn(&cs, Some(x[1]));
        let c = cn(&cs, Some(x[2]));
        let d = &a * &b + &c;
        d.assert_eq(&(&a + Num(S::k(3))));
        b.assert_bit();
        a.assert_nonzero();
    });
    let f = Fm::and(vec![
        x[0].m(&x[1]).a(&x[2]).eq_fm(&x[0].a(&S::k(3))),
        x[1].is_bit_fm(),
        x[0].is_zero_fm().not(),
    ]);
    match r {
        Ok(()) => {
            check("circuit accepted only if satisfied", f);
            cover("accepted", Fm::T);
        }
        Err(_) => {
            check("circuit refused only if not satisfied", f.not());
            cover("refused", Fm::T);
        }
    }
}
fn c14(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    macro_rules! p {
        ($p:literal) => {
            for m in 0..8u32 {
                v.push(case(format!("p{}/enforce/missing-{:03b}", $p, m), format!("GF({}), every value of the three operands", $p), move || panics_iff::<$p>(m)));
            }
            v.push(case(format!("p{}/circuit", $p), format!("GF({}), every value of three inputs", $p), circuit::<$p>));
        };
    }
    p!(13);
    p!(251);
    if th {
        p!(31);
    }
    for n in 1..=(if th { 6 } else { 4 }) {
        v.push(case(format!("history/{}", n), format!("every sequence of {} operations, every value", n), move || history::<13>(n)));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            functions: &["circuit::num::CNum (all operators and gadgets)", "circuit::bool::CBool", "circuit::bitify::{c_into_bits_le, c_into_bits_le_strict, c_comp_constant, c_from_bits_le}", "circuit::mux::c_mux3", "circuit::ecc::{CEdwardsPoint, CMontgomeryPoint}", "circuit::poseidon::*", "circuit::eddsaposeidon::c_eddsaposeidon_verify", "core::signal::Signal impls", "derive(Signal)"],
            outside: "fields other than GF(13) and GF(17), longer bit strings, other shapes of composite signals; runs that panic on an invalid witness produce no circuit and are not compared",
            cases: Box::new(c13),
        },
        Prop {
            id: "C14",
            functions: &["core::cs::TestCS::{new, alloc, alloc_input, enforce, num_constraints}"],
            outside: "fields other than the listed ones, longer histories",
            cases: Box::new(c14),
        },
    ]
}
