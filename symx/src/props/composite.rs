//! C05 composite signals and public inputs
use crate::driver::*;
use crate::engine::*;
use crate::field::S;
use crate::gadget::*;
use crate::props::num::{n_wires, operand, operand_val, Sh, SH};
use crate::reccs::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::CMerkleProof;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::{EdwardsPoint, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::MerkleProof;
use fawkes_crypto_derive::Signal;
use std::marker::PhantomData;
use typenum::{U1, U2, U3, U33, U7};

// user-style derived signals
#[derive(Clone)]
pub struct Named<F: fawkes_crypto::core::field::Field> {
    pub first: Num<F>,
    pub flags: SizedVec<bool, U2>,
    pub last: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "Named<CS::F>"]
pub struct CNamed<'a, CS: ConstraintSystem> {
    pub first: CNum<'a, CS>,
    pub flags: SizedVec<CBool<'a, CS>, U2>,
    pub last: CNum<'a, CS>,
}
#[derive(Clone)]
pub struct Tup<F: fawkes_crypto::core::field::Field>(pub bool, pub Num<F>, pub EdwardsPoint<F>);
#[derive(Clone, Signal)]
#[Value = "Tup<CS::F>"]
pub struct CTup<'a, CS: ConstraintSystem>(pub CBool<'a, CS>, pub CNum<'a, CS>, pub CEdwardsPoint<'a, CS>);

/// A composite signal type with its components in declaration order.
pub trait Comp<const P: u64> {
    type V: Clone;
    type Sig<'a>: Signal<'a, RecCS<P>, Value = Self::V>;
    const BOOL: &'static [bool];
    fn val(x: &[S<P>]) -> Self::V;
    fn flat(v: &Self::V) -> Vec<S<P>>;
    fn parts<'a>(s: &Self::Sig<'a>) -> Vec<C<'a, P>>;
}
fn bl<const P: u64>(x: &S<P>) -> bool {
    Num(*x).into_bool()
}
fn lb<const P: u64>(b: bool) -> S<P> {
    S::k(b as u64)
}
fn sv<T, L: typenum::Unsigned>(v: Vec<T>) -> SizedVec<T, L> {
    SizedVec(v, PhantomData)
}

macro_rules! comp {
    ($name:ident, $v:ty, $sig:ty, $bools:expr, |$x:ident| $val:expr, |$w:ident| $flat:expr, |$s:ident| $parts:expr) => {
        pub struct $name;
        impl<const P: u64> Comp<P> for $name {
            type V = $v;
            type Sig<'a> = $sig;
            const BOOL: &'static [bool] = &$bools;
            fn val($x: &[S<P>]) -> Self::V {
                $val
            }
            fn flat($w: &Self::V) -> Vec<S<P>> {
                $flat
            }
            fn parts<'a>($s: &Self::Sig<'a>) -> Vec<C<'a, P>> {
                $parts
            }
        }
    };
}
comp!(TNum, Num<S<P>>, C<'a, P>, [false], |x| Num(x[0]), |v| vec![v.0], |s| vec![s.clone()]);
comp!(TBool, bool, B<'a, P>, [true], |x| bl(&x[0]), |v| vec![lb(*v)], |s| vec![s.0.clone()]);
comp!(TVec, SizedVec<Num<S<P>>, U3>, SizedVec<C<'a, P>, U3>, [false, false, false],
    |x| sv(x.iter().map(|x| Num(*x)).collect()), |v| v.0.iter().map(|n| n.0).collect(), |s| s.0.clone());
comp!(TVecBool, SizedVec<bool, U2>, SizedVec<B<'a, P>, U2>, [true, true],
    |x| sv(x.iter().map(bl).collect()), |v| v.0.iter().map(|b| lb(*b)).collect(), |s| s.0.iter().map(|b| b.0.clone()).collect());
comp!(TTuple, (Num<S<P>>, bool, Num<S<P>>), (C<'a, P>, B<'a, P>, C<'a, P>), [false, true, false],
    |x| (Num(x[0]), bl(&x[1]), Num(x[2])), |v| vec![v.0 .0, lb(v.1), v.2 .0], |s| vec![s.0.clone(), s.1 .0.clone(), s.2.clone()]);
comp!(TOne, (Num<S<P>>,), (C<'a, P>,), [false], |x| (Num(x[0]),), |v| vec![v.0 .0], |s| vec![s.0.clone()]);
comp!(TNested, SizedVec<(Num<S<P>>, bool), U2>, SizedVec<(C<'a, P>, B<'a, P>), U2>, [false, true, false, true],
    |x| sv(vec![(Num(x[0]), bl(&x[1])), (Num(x[2]), bl(&x[3]))]),
    |v| v.0.iter().flat_map(|(a, b)| vec![a.0, lb(*b)]).collect(),
    |s| s.0.iter().flat_map(|(a, b)| vec![a.clone(), b.0.clone()]).collect());
comp!(TNamed, Named<S<P>>, CNamed<'a, RecCS<P>>, [false, true, true, false],
    |x| Named { first: Num(x[0]), flags: sv(vec![bl(&x[1]), bl(&x[2])]), last: Num(x[3]) },
    |v| vec![v.first.0, lb(v.flags.0[0]), lb(v.flags.0[1]), v.last.0],
    |s| vec![s.first.clone(), s.flags.0[0].0.clone(), s.flags.0[1].0.clone(), s.last.clone()]);
comp!(TTup, Tup<S<P>>, CTup<'a, RecCS<P>>, [true, false, false, false],
    |x| Tup(bl(&x[0]), Num(x[1]), EdwardsPoint { x: Num(x[2]), y: Num(x[3]) }),
    |v| vec![lb(v.0), v.1 .0, v.2.x.0, v.2.y.0],
    |s| vec![s.0 .0.clone(), s.1.clone(), s.2.x.clone(), s.2.y.clone()]);
comp!(TEdwards, EdwardsPoint<S<P>>, CEdwardsPoint<'a, RecCS<P>>, [false, false],
    |x| EdwardsPoint { x: Num(x[0]), y: Num(x[1]) }, |v| vec![v.x.0, v.y.0], |s| vec![s.x.clone(), s.y.clone()]);
comp!(TMontgomery, MontgomeryPoint<S<P>>, CMontgomeryPoint<'a, RecCS<P>>, [false, false],
    |x| MontgomeryPoint { x: Num(x[0]), y: Num(x[1]) }, |v| vec![v.x.0, v.y.0], |s| vec![s.x.clone(), s.y.clone()]);
comp!(TMerkle, MerkleProof<S<P>, U2>, CMerkleProof<'a, RecCS<P>, U2>, [false, false, true, true],
    |x| MerkleProof { sibling: sv(vec![Num(x[0]), Num(x[1])]), path: sv(vec![bl(&x[2]), bl(&x[3])]) },
    |v| vec![v.sibling.0[0].0, v.sibling.0[1].0, lb(v.path.0[0]), lb(v.path.0[1])],
    |s| vec![s.sibling.0[0].clone(), s.sibling.0[1].clone(), s.path.0[0].0.clone(), s.path.0[1].0.clone()]);
comp!(TVec1, SizedVec<Num<S<P>>, U1>, SizedVec<C<'a, P>, U1>, [false],
    |x| sv(x.iter().map(|x| Num(*x)).collect()), |v| v.0.iter().map(|n| n.0).collect(), |s| s.0.clone());

comp!(TVec7, SizedVec<Num<S<P>>, U7>, SizedVec<C<'a, P>, U7>, [false; 7],
    |x| sv(x.iter().map(|x| Num(*x)).collect()), |v| v.0.iter().map(|n| n.0).collect(), |s| s.0.clone());
comp!(TVec33, SizedVec<Num<S<P>>, U33>, SizedVec<C<'a, P>, U33>, [false; 33],
    |x| sv(x.iter().map(|x| Num(*x)).collect()), |v| v.0.iter().map(|n| n.0).collect(), |s| s.0.clone());

fn comp_vars<const P: u64, T: Comp<P>>(pre: &str) -> (Vec<S<P>>, Fm) {
    let v = vars::<P>(pre, T::BOOL.len());
    let g = Fm::and(v.iter().zip(T::BOOL.iter()).map(|(x, b)| if *b { x.is_bit_fm() } else { Fm::T }).collect());
    (v, g)
}

fn nums<const P: u64>(a: &Asg<P>, v: &[C<P>]) -> Vec<S<P>> {
    v.iter().map(|x| a.num(x)).collect()
}

/// allocation, constants, values, linearisation, public inputs
fn basics<const P: u64, T: Comp<P>>() {
    let n = T::BOOL.len();
    let (x, g) = comp_vars::<P, T>("x");
    // without a witness
    let cs0 = RecCS::<P>::new();
    let s0 = T::Sig::alloc(&cs0, None);
    check("alloc without value has no value", Fm::bool(s0.get_value().is_none()));
    check("alloc allocates one private wire per component", Fm::bool(cs0.n_aux() == n && cs0.n_in() == 0));
    check("a wire is not a constant", Fm::bool(s0.as_const().is_none()));
    s0.inputize();
    check("inputize adds one public input per component", Fm::bool(cs0.n_in() == n));
    let adv = cs0.adversary("z", &[]);
    let sat = cs0.sat(&adv);
    check("allocated components are independent wires", {
        // any assignment of the components is possible: the wires are pairwise distinct
        let ps = T::parts(&s0);
        let mut ws: Vec<_> = ps.iter().map(|p| format!("{:?}", lc_of(p).iter().map(|t| t.0).collect::<Vec<_>>())).collect();
        ws.sort();
        ws.dedup();
        Fm::bool(ws.len() == n && ps.iter().all(|p| lc_of(p).len() == 1))
    });
    check("public input k equals component k in every satisfying assignment", Fm::implies(sat.clone(), eqs(&adv.inputs, &nums(&adv, &T::parts(&s0)))));
    check("linearize lists the components in declaration order", eqs(&nums(&adv, &s0.linearize()), &nums(&adv, &T::parts(&s0))));
    // satisfiable for every value of the components
    check("inputize constrains nothing but the public inputs", {
        let a2 = Asg { inputs: nums(&adv, &T::parts(&s0)), aux: adv.aux.clone() };
        cs0.sat(&a2)
    });
    cover("sat", sat);
    // with a witness
    assume(g);
    let v = T::val(&x);
    let cs1 = RecCS::<P>::new();
    let s1 = T::Sig::alloc(&cs1, Some(&v));
    check("components carry the given values", Fm::and(T::parts(&s1).iter().zip(x.iter()).map(|(p, x)| p.value.map(|v| v.0.eq_fm(x)).unwrap_or(Fm::F)).collect()));
    check("get_value returns the given value", s1.get_value().map(|w| eqs(&T::flat(&w), &x)).unwrap_or(Fm::F));
    s1.inputize();
    match cs1.honest() {
        None => check("every wire has a value", Fm::F),
        Some(h) => {
            check("honest public inputs", Fm::and(vec![eqs(&h.inputs, &x), cs1.sat(&h), eqs(&nums(&h, &T::parts(&s1)), &x)]));
        }
    }
    check("same constraints with and without witness", cs0.same(&cs1));
    // constants
    let cs2 = RecCS::<P>::new();
    let s2 = T::Sig::from_const(&cs2, &v);
    check("constant has its value", s2.get_value().map(|w| eqs(&T::flat(&w), &x)).unwrap_or(Fm::F));
    check("constant is recognised", s2.as_const().map(|w| eqs(&T::flat(&w), &x)).unwrap_or(Fm::F));
    check("constant components", eqs(&nums(&Asg { inputs: vec![], aux: vec![] }, &T::parts(&s2)), &x));
    check("constants need no wires", Fm::bool(cs2.n_aux() == 0 && cs2.n_cons() == 0 && cs2.n_in() == 0));
    s2.inputize();
    check("inputize of a constant adds the inputs", Fm::bool(cs2.n_in() == n));
    let adv2 = cs2.adversary("c", &[]);
    check("public inputs of a constant", Fm::implies(cs2.sat(&adv2), eqs(&adv2.inputs, &x)));
    match cs2.honest() {
        None => check("every wire of a constant has a value", Fm::F),
        Some(h) => check("honest public inputs of a constant", Fm::and(vec![eqs(&h.inputs, &x), cs2.sat(&h)])),
    }
    check("get_cs", Fm::bool(std::ptr::eq(s2.get_cs(), &cs2) && std::ptr::eq(s1.get_cs(), &cs1)));
    cover("end", Fm::T);
}

fn mk<'a, const P: u64, T: Comp<P>>(cs: &'a RecCS<P>, k: bool, v: Option<&T::V>, kv: &T::V) -> T::Sig<'a> {
    if k {
        T::Sig::from_const(cs, kv)
    } else {
        T::Sig::alloc(cs, v)
    }
}

/// Relations between two composite signals; `ka`, `kb`: that operand is a constant.
fn relations<const P: u64, T: Comp<P>>(ka: bool, kb: bool, what: &'static str) {
    let n = T::BOOL.len();
    let (x, gx) = comp_vars::<P, T>("x");
    let (y, gy) = comp_vars::<P, T>("y");
    let sel = S::<P>::var("sel");
    let ksel = what == "switch_const";
    assume(Fm::and(vec![gx, gy, sel.is_bit_fm()]));
    let (vx, vy) = (T::val(&x), T::val(&y));
    let b = bl(&sel);
    let eq = eqs(&x, &y);
    // outputs
    let go = |cs: &RecCS<P>, wit: bool| -> Result<(Vec<Lc<P>>, Vec<Option<Num<S<P>>>>), String> {
        attempt(|| {
            let sx = mk::<P, T>(cs, ka, if wit { Some(&vx) } else { None }, &vx);
            let sy = mk::<P, T>(cs, kb, if wit { Some(&vy) } else { None }, &vy);
            let outs: Vec<C<P>> = match what {
                "switch" | "switch_const" => {
                    let s = if ksel { B::from_const(cs, &b) } else { B::alloc(cs, if wit { Some(&b) } else { None }) };
                    T::parts(&sx.switch(&s, &sy))
                }
                "is_eq" => vec![sx.is_eq(&sy).0],
                "assert_eq" => {
                    sx.assert_eq(&sy);
                    vec![]
                }
                "assert_const" => {
                    sx.assert_const(&vy);
                    vec![]
                }
                _ => unreachable!(),
            };
            let r = (outs.iter().map(lc_of).collect(), outs.iter().map(|o| o.value).collect());
            drop(outs);
            r
        })
    };
    let rel = |o: &[S<P>]| match what {
        "switch" | "switch_const" => Fm::and(vec![Fm::implies(sel.eqk_fm(1), eqs(o, &x)), Fm::implies(sel.is_zero_fm(), eqs(o, &y))]),
        "is_eq" => Fm::and(vec![Fm::implies(eq.clone(), eqs(o, &[S::k(1)])), Fm::implies(eq.clone().not(), eqs(o, &[S::k(0)]))]),
        _ => eq.clone(),
    };
    let asserting = what.starts_with("assert");
    let cs0 = RecCS::<P>::new();
    let r0 = go(&cs0, false);
    let mut given = vec![];
    if !ka {
        given.extend(x.iter().cloned());
    }
    if !kb && what != "assert_const" {
        given.extend(y.iter().cloned());
    } else if !kb {
        given.extend(y.iter().cloned()); // allocated but unused
    }
    if what == "switch" {
        given.push(sel);
    }
    match r0 {
        Err(e) => {
            // only a false assertion between constants may be refused outright
            check(format!("{} panics: {}", what, e), Fm::bool(asserting && ka).clone());
            check(format!("{} refuses a true statement: {}", what, e), eq.clone().not());
            return;
        }
        Ok((lcs, _)) => {
            let adv = cs0.adversary("w", &given);
            let o: Vec<S<P>> = lcs.iter().map(|l| adv.lc(l)).collect();
            check(format!("{} soundness", what), Fm::implies(cs0.sat(&adv), rel(&o)));
            if what.starts_with("switch") {
                check(format!("{} output count", what), Fm::bool(o.len() == n));
            }
            if !asserting {
                cover(format!("{} satisfiable", what), cs0.sat(&adv));
            }
        }
    }
    if asserting {
        assume(eq.clone());
        cover("equal", Fm::T);
    }
    let cs1 = RecCS::<P>::new();
    match go(&cs1, true) {
        Err(e) => check(format!("{} panics on a valid statement: {}", what, e), Fm::F),
        Ok((lcs, vals)) => {
            check(format!("{} same constraints", what), cs0.same(&cs1));
            match cs1.honest() {
                None => check("wires without value", Fm::F),
                Some(h) => {
                    check(format!("{} honest", what), Fm::and(vec![cs1.sat(&h), cs1.tracked(&h)]));
                    let o: Vec<S<P>> = lcs.iter().map(|l| h.lc(l)).collect();
                    check(format!("{} values", what), Fm::and(o.iter().zip(vals.iter()).map(|(a, v)| v.map(|v| v.0.eq_fm(a)).unwrap_or(Fm::F)).collect()));
                    check(format!("{} honest output", what), rel(&o));
                }
            }
        }
    }
}

/// inputize of linear combinations
fn inputize_lc<const P: u64>(sh: Sh) {
    let ins = vars::<P>("x", n_wires(&[sh]));
    let x = operand_val(sh, "a", &mut ins.iter().cloned());
    let cs0 = RecCS::<P>::new();
    {
        let w: Vec<C<P>> = ins.iter().map(|_| C::alloc(&cs0, None)).collect();
        operand(&cs0, sh, "a", &mut w.iter().cloned()).inputize();
    }
    let adv = cs0.adversary("w", &ins);
    check("public input equals the signal", Fm::and(vec![Fm::bool(cs0.n_in() == 1), Fm::implies(cs0.sat(&adv), eqs(&adv.inputs, &[x]))]));
    let cs1 = RecCS::<P>::new();
    {
        let w: Vec<C<P>> = ins.iter().map(|v| C::alloc(&cs1, Some(&Num(*v)))).collect();
        operand(&cs1, sh, "a", &mut w.iter().cloned()).inputize();
    }
    let h = cs1.honest();
    check("honest", h.map(|h| Fm::and(vec![cs1.sat(&h), eqs(&h.inputs, &[x]), cs1.tracked(&h)])).unwrap_or(Fm::F));
    check("same", cs0.same(&cs1));
    cover("sat", cs0.sat(&adv));
}

fn partial_values<const P: u64>() {
    // a composite has a value (is constant) only if all of its components do
    let cs = RecCS::<P>::new();
    let a = C::<P>::alloc(&cs, Some(&Num(S::var("x"))));
    let b = C::<P>::alloc(&cs, None);
    let k = C::<P>::from_const(&cs, &Num(S::var("k")));
    let none = |v: Vec<C<P>>| {
        let s: SizedVec<C<P>, U2> = sv(v.clone());
        let t = (v[0].clone(), v[1].clone());
        let e = CEdwardsPoint { x: v[0].clone(), y: v[1].clone() };
        vec![s.get_value().is_none(), t.get_value().is_none(), e.get_value().is_none(), s.as_const().is_none(), t.as_const().is_none(), e.as_const().is_none()]
    };
    check("value needs all", Fm::bool(none(vec![a.clone(), b.clone()])[..3].iter().all(|x| *x)));
    check("value needs all'", Fm::bool(none(vec![b.clone(), a.clone()])[..3].iter().all(|x| *x)));
    check("const needs all", Fm::bool(none(vec![k.clone(), a.clone()])[3..].iter().all(|x| *x)));
    check("const needs all'", Fm::bool(none(vec![a.clone(), k.clone()])[3..].iter().all(|x| *x)));
    check("const and wire have value", Fm::bool(none(vec![a.clone(), k.clone()])[..3].iter().all(|x| !*x)));
}

/// constants and wires made from another signal, casts: the value, its constancy, and the system they belong to
fn helpers<const P: u64>() {
    let cs = RecCS::<P>::new();
    let x = S::<P>::var("x");
    let a = C::<P>::alloc(&cs, Some(&Num(x)));
    let b = B::alloc(&cs, Some(&true));
    let n0 = (cs.n_aux(), cs.n_in(), cs.n_cons());
    let k = |n: &C<P>| n.as_const().map(|v| v.0);
    for (w, n, v) in vec![("zero", C::<P>::zero(&cs), 0), ("one", C::<P>::one(&cs), 1), ("derive_zero", a.derive_zero(), 0), ("derive_one", a.derive_one(), 1), ("c_true", B::c_true(&cs).into_num(), 1), ("c_false", B::c_false(&cs).into_num(), 0)] {
        check(format!("{} is that constant", w), Fm::and(vec![k(&n).map_or(Fm::F, |c| c.eq_fm(&S::k(v))), n.get_value().map_or(Fm::F, |c| c.0.eq_fm(&S::k(v))), Fm::bool(std::ptr::eq(n.get_cs(), &cs))]));
    }
    let d: C<P> = a.derive_const(&Num(x));
    check("derive_const", Fm::and(vec![k(&d).map_or(Fm::F, |c| c.eq_fm(&x)), Fm::bool(std::ptr::eq(d.get_cs(), &cs))]));
    let d: B<P> = a.derive_const(&true);
    check("derive_const of a boolean", Fm::bool(d.as_const() == Some(true)));
    for n in vec![b.into_num(), b.0.into_bool().0] {
        check("casts keep the wire and the value", Fm::and(vec![same_lc(&lc_of(&n), &lc_of(&b.0)), n.get_value().map_or(Fm::F, |c| c.0.eq_fm(&S::k(1)))]));
    }
    check("none of these touch the system", Fm::bool(n0 == (cs.n_aux(), cs.n_in(), cs.n_cons())));
    let e: C<P> = b.derive_alloc(Some(&Num(x)));
    let f: C<P> = a.derive_var(Some(Num(x)), crate::reccs::lc_of(&e)[0].0);
    check("derive_alloc makes one new wire", Fm::and(vec![Fm::bool((n0.0 + 1, n0.1, n0.2) == (cs.n_aux(), cs.n_in(), cs.n_cons())), e.get_value().map_or(Fm::F, |c| c.0.eq_fm(&x)), Fm::bool(e.as_const().is_none())]));
    check("derive_var names the wire", Fm::and(vec![same_lc(&lc_of(&e), &lc_of(&f)), f.get_value().map_or(Fm::F, |c| c.0.eq_fm(&x))]));
    cover("end", Fm::T);
}

fn type_cases<const P: u64, T: Comp<P> + 'static>(v: &mut Vec<Case>, name: &str) {
    let bd = format!("GF({}), all component values, all wire assignments", P);
    v.push(case(format!("basics/{}/p{}", name, P), bd.clone(), basics::<P, T>));
    for what in ["switch", "switch_const", "is_eq", "assert_eq", "assert_const"] {
        for ka in [false, true] {
            for kb in [false, true] {
                if what == "assert_const" && kb {
                    continue;
                }
                v.push(case(format!("{}/{}/p{}/{}{}", what, name, P, if ka { "k" } else { "w" }, if kb { "k" } else { "w" }), bd.clone(), move || relations::<P, T>(ka, kb, what)));
            }
        }
    }
}

/// wires only (constants make one path for each combination of equal components)
fn long_cases<const P: u64, T: Comp<P> + 'static>(v: &mut Vec<Case>, name: &str) {
    let bd = format!("GF({}), all component values, all wire assignments", P);
    v.push(case(format!("basics/{}/p{}", name, P), bd.clone(), basics::<P, T>));
    for what in ["switch", "is_eq", "assert_eq"] {
        if what == "is_eq" && T::BOOL.len() > 9 {
            continue;
        }
        v.push(case(format!("{}/{}/p{}/ww", what, name, P), bd.clone(), move || relations::<P, T>(false, false, what)));
    }
}
fn c05<const P: u64>(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    type_cases::<P, TNum>(&mut v, "num");
    type_cases::<P, TBool>(&mut v, "bool");
    type_cases::<P, TTuple>(&mut v, "tuple");
    type_cases::<P, TEdwards>(&mut v, "edwards");
    type_cases::<P, TTup>(&mut v, "derived-tuple");
    type_cases::<P, TVec>(&mut v, "vec3");
    type_cases::<P, TNamed>(&mut v, "derived-named");
    type_cases::<P, TMontgomery>(&mut v, "montgomery");
    type_cases::<P, TMerkle>(&mut v, "merkle");
    type_cases::<P, TOne>(&mut v, "tuple1");
    type_cases::<P, TVecBool>(&mut v, "vecbool");
    type_cases::<P, TVec1>(&mut v, "vec1");
    long_cases::<61, TVec7>(&mut v, "vec7");
    long_cases::<61, TVec33>(&mut v, "vec33");
    if tier == Tier::Thorough {
        type_cases::<P, TNested>(&mut v, "nested");
    }
    for sh in SH {
        v.push(case(format!("inputize/{:?}/p{}", sh, P), format!("GF({})", P), move || inputize_lc::<P>(sh)));
    }
    v.push(case(format!("helpers/p{}", P), format!("GF({})", P), helpers::<P>));
    v.push(case(format!("partial/p{}", P), format!("GF({})", P), partial_values::<P>));
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C05",
        functions: &["core::signal::Signal for SizedVec and tuples", "fawkes_crypto_derive::Signal (named and tuple structs)", "CNum/CBool inputize, linearize, alloc, from_const, as_const, get_value, switch, assert_eq, assert_const, is_eq"],
        outside: "tuples and vectors longer than listed; other primes",
        cases: Box::new(|t| c05::<13>(t)),
    }]
}
