//! C06 circuit curve operations; C18 native group operations
use crate::curve::*;
use crate::driver::*;
use crate::engine::*;
use crate::field::S;
use crate::gadget::*;
use crate::reccs::*;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::ecc::{EdwardsPointEx, MontgomeryPoint};
use fawkes_crypto::native::num::Num;

type E<'a, const P: u64> = CEdwardsPoint<'a, RecCS<P>>;
type M<'a, const P: u64> = CMontgomeryPoint<'a, RecCS<P>>;

fn mset(r: &Ref) -> Vec<Pt> {
    r.pts.iter().filter_map(|a| r.mont(*a)).collect()
}
fn unmont(r: &Ref, m: Pt) -> Pt {
    *r.pts.iter().find(|a| r.mont(**a) == Some(m)).unwrap()
}
/// operand: wires, or the constant point numbered by a forked index
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Wire,
    Const,
}
struct Pin<const P: u64> {
    x: S<P>,
    y: S<P>,
    konst: Option<Pt>,
}
fn pin<const P: u64>(name: &str, op: Op, set: &[Pt]) -> Pin<P> {
    match op {
        Op::Wire => Pin { x: S::var(&format!("{}x", name)), y: S::var(&format!("{}y", name)), konst: None },
        Op::Const => {
            // the constant's coordinates are symbolic as well: the circuit is built for each of them
            let (x, y) = (S::<P>::var(&format!("{}x", name)), S::<P>::var(&format!("{}y", name)));
            assume(in_set(&x, &y, set));
            let a = (decide_value(x.0), decide_value(y.0));
            Pin { x, y, konst: Some(a) }
        }
    }
}
fn ins_of<const P: u64>(ps: &[&Pin<P>]) -> Vec<S<P>> {
    let mut v = vec![];
    for p in ps {
        if p.konst.is_none() {
            v.push(p.x);
            v.push(p.y);
        }
    }
    v
}
fn sig<'a, const P: u64>(cs: &'a RecCS<P>, p: &Pin<P>, ins: &mut std::slice::Iter<C<'a, P>>) -> (C<'a, P>, C<'a, P>) {
    match p.konst {
        Some(a) => (C::from_const(cs, &Num(S::k(a.0))), C::from_const(cs, &Num(S::k(a.1)))),
        None => (ins.next().unwrap().clone(), ins.next().unwrap().clone()),
    }
}

fn ed_add<const P: u64, const Q: u64>(d: u64, oa: Op, ob: Op) {
    let (t, r) = tiny::<P, Q>(d);
    let a = pin::<P>("a", oa, &r.pts);
    let b = pin::<P>("b", ob, &r.pts);
    let ins = ins_of(&[&a, &b]);
    Gadget::new("edwards add", &ins)
        .given(Fm::and(vec![in_set(&a.x, &a.y, &r.pts), in_set(&b.x, &b.y, &r.pts)]))
        .run(
            |cs, i| {
                let mut it = i.iter();
                let (ax, ay) = sig(cs, &a, &mut it);
                let (bx, by) = sig(cs, &b, &mut it);
                let o = E { x: ax, y: ay }.add(&E { x: bx, y: by }, &t);
                vec![o.x, o.y]
            },
            |o| table2((&a.x, &a.y), (&b.x, &b.y), &r.pts, &r.pts, (&o[0], &o[1]), |p, q| Some(r.add(p, q))),
        );
}
fn ed_un<const P: u64, const Q: u64>(d: u64, op: Op, what: &'static str) {
    let (t, r) = tiny::<P, Q>(d);
    let set: Vec<Pt> = match what {
        "into_montgomery" => r.pts.iter().cloned().filter(|a| a.0 != 0).collect(),
        _ => r.pts.clone(),
    };
    let a = pin::<P>("a", op, &set);
    let ins = ins_of(&[&a]);
    Gadget::new(what, &ins).given(in_set(&a.x, &a.y, &set)).run(
        |cs, i| {
            let (x, y) = sig(cs, &a, &mut i.iter());
            let e = E { x, y };
            match what {
                "double" => {
                    let o = e.double(&t);
                    vec![o.x, o.y]
                }
                "mul_by_cofactor" => {
                    let o = e.mul_by_cofactor(&t);
                    vec![o.x, o.y]
                }
                "into_montgomery" => {
                    let o = e.into_montgomery();
                    vec![o.x, o.y]
                }
                _ => {
                    let o = e.into_montgomery().into_edwards();
                    vec![o.x, o.y]
                }
            }
        },
        |o| {
            table1(&a.x, &a.y, &set, (&o[0], &o[1]), |p| match what {
                "double" => r.add(p, p),
                "mul_by_cofactor" => r.mul(8, p),
                _ => r.mont(p).unwrap(),
            })
        },
    );
}
fn in_curve<const P: u64, const Q: u64>(d: u64) {
    let (t, _) = tiny::<P, Q>(d);
    let (x, y) = (S::<P>::var("x"), S::<P>::var("y"));
    let on = on_curve(&x, &y, d);
    Gadget::new("assert_in_curve", &[x, y]).accept(on.clone()).run(
        |_, i| {
            E { x: i[0].clone(), y: i[1].clone() }.assert_in_curve(&t);
            vec![]
        },
        |_| on.clone(),
    );
}
fn in_curve_const<const P: u64, const Q: u64>(d: u64) {
    let (t, _) = tiny::<P, Q>(d);
    let (x, y) = (S::<P>::var("x"), S::<P>::var("y"));
    let on = on_curve(&x, &y, d);
    // y is a wire, x a constant, and the other way round, and both
    for m in 0..3 {
        let name = format!("assert_in_curve const {}", m);
        let cs = RecCS::<P>::new();
        let w = |v: &S<P>, k: bool| if k { C::from_const(&cs, &Num(*v)) } else { C::alloc(&cs, None) };
        let r = attempt(|| E { x: w(&x, m != 0), y: w(&y, m != 1) }.assert_in_curve(&t));
        match r {
            Err(e) => check(format!("{} panics on a point of the curve: {}", name, e), on.clone().not()),
            Ok(()) => {
                let given: Vec<S<P>> = match m {
                    0 => vec![x],
                    1 => vec![y],
                    _ => vec![],
                };
                let adv = cs.adversary(&name, &given);
                check(format!("{} sound", name), Fm::implies(cs.sat(&adv), on.clone()));
                cover(format!("{} sat", name), cs.sat(&adv));
            }
        }
    }
}
fn mo_un<const P: u64, const Q: u64>(d: u64, op: Op, what: &'static str) {
    let (t, r) = tiny::<P, Q>(d);
    let ms = mset(&r);
    let set: Vec<Pt> = match what {
        "montgomery double" => ms.iter().cloned().filter(|a| a.1 != 0).collect(),
        _ => ms.clone(),
    };
    let a = pin::<P>("a", op, &set);
    let ins = ins_of(&[&a]);
    Gadget::new(what, &ins).given(in_set(&a.x, &a.y, &set)).run(
        |cs, i| {
            let (x, y) = sig(cs, &a, &mut i.iter());
            let m = M { x, y };
            match what {
                "montgomery double" => {
                    let o = m.double(&t);
                    vec![o.x, o.y]
                }
                _ => {
                    let o = m.into_edwards();
                    vec![o.x, o.y]
                }
            }
        },
        |o| {
            table1(&a.x, &a.y, &set, (&o[0], &o[1]), |m| {
                let e = unmont(&r, m);
                match what {
                    "montgomery double" => r.mont(r.add(e, e)).unwrap(),
                    _ => e,
                }
            })
        },
    );
}
fn mo_add<const P: u64, const Q: u64>(d: u64, oa: Op, ob: Op) {
    let (t, r) = tiny::<P, Q>(d);
    let ms = mset(&r);
    let a = pin::<P>("a", oa, &ms);
    let b = pin::<P>("b", ob, &ms);
    let ins = ins_of(&[&a, &b]);
    let ok = Fm::and(vec![in_set(&a.x, &a.y, &ms), in_set(&b.x, &b.y, &ms), a.x.eq_fm(&b.x).not()]);
    if a.konst.is_some() && b.konst.is_some() && a.konst.unwrap().0 == b.konst.unwrap().0 {
        return;
    }
    Gadget::new("montgomery add", &ins).given(ok).run(
        |cs, i| {
            let mut it = i.iter();
            let (ax, ay) = sig(cs, &a, &mut it);
            let (bx, by) = sig(cs, &b, &mut it);
            let o = M { x: ax, y: ay }.add(&M { x: bx, y: by }, &t);
            vec![o.x, o.y]
        },
        |o| {
            table2((&a.x, &a.y), (&b.x, &b.y), &ms, &ms, (&o[0], &o[1]), |p, q| {
                if p.0 == q.0 {
                    None
                } else {
                    r.mont(r.add(unmont(&r, p), unmont(&r, q)))
                }
            })
        },
    );
}

fn c06(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    macro_rules! curve {
        ($p:literal, $q:literal, $d:literal, $full:expr) => {{
            let b = format!("GF({}), d={}, every point of the curve ({} points), all wire assignments", $p, $d, 8 * $q);
            let n = |s: &str| format!("p{}d{}/{}", $p, $d, s);
            v.push(case(n("add"), b.clone(), || ed_add::<$p, $q>($d, Op::Wire, Op::Wire)));
            v.push(case(n("double"), b.clone(), || ed_un::<$p, $q>($d, Op::Wire, "double")));
            v.push(case(n("cofactor"), b.clone(), || ed_un::<$p, $q>($d, Op::Wire, "mul_by_cofactor")));
            v.push(case(n("in_curve"), b.clone(), || in_curve::<$p, $q>($d)));
            v.push(case(n("into_montgomery"), b.clone(), || ed_un::<$p, $q>($d, Op::Wire, "into_montgomery")));
            v.push(case(n("m_double"), b.clone(), || mo_un::<$p, $q>($d, Op::Wire, "montgomery double")));
            v.push(case(n("m_add"), b.clone(), || mo_add::<$p, $q>($d, Op::Wire, Op::Wire)));
            v.push(case(n("into_edwards"), b.clone(), || mo_un::<$p, $q>($d, Op::Wire, "into_edwards")));
            if $full {
                v.push(case(n("in_curve_const"), b.clone(), || in_curve_const::<$p, $q>($d)));
                v.push(case(n("add_wc"), b.clone(), || ed_add::<$p, $q>($d, Op::Wire, Op::Const)));
                v.push(case(n("add_cw"), b.clone(), || ed_add::<$p, $q>($d, Op::Const, Op::Wire)));
                v.push(case(n("double_c"), b.clone(), || ed_un::<$p, $q>($d, Op::Const, "double")));
                v.push(case(n("cofactor_c"), b.clone(), || ed_un::<$p, $q>($d, Op::Const, "mul_by_cofactor")));
                v.push(case(n("into_montgomery_c"), b.clone(), || ed_un::<$p, $q>($d, Op::Const, "into_montgomery")));
                v.push(case(n("m_double_c"), b.clone(), || mo_un::<$p, $q>($d, Op::Const, "montgomery double")));
                v.push(case(n("into_edwards_c"), b.clone(), || mo_un::<$p, $q>($d, Op::Const, "into_edwards")));
                v.push(case(n("m_add_cw"), b.clone(), || mo_add::<$p, $q>($d, Op::Const, Op::Wire)));
                v.push(case(n("m_add_wc"), b.clone(), || mo_add::<$p, $q>($d, Op::Wire, Op::Const)));
            }
        }};
    }
    curve!(17, 3, 7, true);
    curve!(29, 3, 3, false);
    if tier == Tier::Thorough {
        curve!(17, 3, 14, true);
        curve!(29, 5, 27, true);
        curve!(37, 5, 2, false);
        curve!(61, 7, 2, false);
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C06",
        functions: &[
            "circuit::ecc::CEdwardsPoint::{double, add, mul_by_cofactor, assert_in_curve, into_montgomery}",
            "circuit::ecc::CMontgomeryPoint::{double, add, into_edwards}",
            "circuit::num::CNum arithmetic (as called)",
        ],
        outside: "larger fields and curves; points off the curve (no guarantee is made for them)",
        cases: Box::new(c06),
    }]
}
