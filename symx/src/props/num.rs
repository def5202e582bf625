//! C01 circuit arithmetic, C02 equality/zero gadgets
use crate::driver::*;
use crate::engine::*;
use crate::field::S;
use crate::gadget::*;
use crate::reccs::*;
use fawkes_crypto::circuit::num::Index;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;

/// wires an arbitrary linear combination may mention
fn wires() -> Vec<Index> {
    vec![Index::Input(0), Index::Input(1), Index::Input(2), Index::Aux(0), Index::Aux(1)]
}

struct World<const P: u64> {
    cs: RecCS<P>,
    asg: Asg<P>,
}

/// two public inputs and two private wires with arbitrary values
fn world<const P: u64>() -> World<P> {
    let cs = RecCS::<P>::new();
    let asg = Asg { inputs: vars("in", 2), aux: vars("aux", 2) };
    for v in &asg.inputs {
        fawkes_crypto::core::cs::ConstraintSystem::alloc_input(&cs, Some(Num(*v)));
    }
    for v in &asg.aux {
        fawkes_crypto::core::cs::ConstraintSystem::alloc(&cs, Some(Num(*v)));
    }
    World { cs, asg }
}

/// Arbitrary well-formed linear combination over the wires picked by `mask`: coefficients are
/// symbolic; a non-constant term is present iff its coefficient is nonzero (the representation
/// invariant); the constant term may be stored explicitly even when it is zero.
fn any_lc<'a, const P: u64>(w: &'a World<P>, tag: &str, mask: &[Index], with_value: bool) -> C<'a, P> {
    let mut c = C::zero(&w.cs);
    c.lc.pop_front();
    for i in mask {
        let k = S::<P>::var(&format!("{}_{:?}", tag, i));
        if *i != Index::Input(0) {
            if decide_zero(&k) {
                continue;
            }
        }
        c.lc.push_back((*i, Num(k)));
    }
    // linear operations must carry any value through, so it need not be tied to the wires here
    c.value = if with_value { Some(Num(S::var(&format!("{}_value", tag)))) } else { None };
    c
}
pub fn decide_zero<const P: u64>(k: &S<P>) -> bool {
    ff::Field::is_zero(k)
}

fn wf<const P: u64>(c: &C<P>) -> Fm {
    let l = lc_of(c);
    let mut v = vec![Fm::bool(sorted(&l))];
    for (i, k) in &l {
        if *i != Index::Input(0) {
            v.push(k.0.is_zero_fm().not());
        }
    }
    Fm::and(v)
}

/// expected result: linear combination (as a function of the wires) and value
struct Want<const P: u64>(Lc<P>, S<P>);

/// ka*a + kb*b
fn comb<const P: u64>(a: &C<P>, ka: S<P>, b: &C<P>, kb: S<P>) -> Want<P> {
    let mut l: Lc<P> = vec![];
    for (i, c) in lc_of(a) {
        l.push((i, Num(c.0.m(&ka))));
    }
    for (i, c) in lc_of(b) {
        l.push((i, Num(c.0.m(&kb))));
    }
    let z = Num(S::k(0));
    let v = a.value.unwrap_or(z).0.m(&ka).a(&b.value.unwrap_or(z).0.m(&kb));
    Want(l, v)
}

fn check_lin<const P: u64>(label: &str, r: Result<C<P>, String>, want: &Want<P>, with_value: bool) {
    match r {
        Err(e) => check(format!("{}: panics: {}", label, e), Fm::F),
        Ok(r) => {
            check(format!("{}: linear combination", label), same_lc(&lc_of(&r), &want.0));
            check(format!("{}: representation invariant", label), wf(&r));
            let f = match r.value {
                Some(v) => Fm::and(vec![Fm::bool(with_value), v.0.eq_fm(&want.1)]),
                None => Fm::bool(!with_value),
            };
            check(format!("{}: value", label), f);
        }
    }
}

macro_rules! forms2 {
    ($w:expr, $name:expr, $a:expr, $b:expr, $op:tt, $asg:tt, $want:expr, $wv:expr) => {{
        let (a, b) = (&$a, &$b);
        check_lin(concat!($name, " val,val"), attempt(|| a.clone() $op b.clone()), &$want, $wv);
        check_lin(concat!($name, " val,ref"), attempt(|| a.clone() $op b), &$want, $wv);
        check_lin(concat!($name, " ref,val"), attempt(|| a $op b.clone()), &$want, $wv);
        check_lin(concat!($name, " ref,ref"), attempt(|| a $op b), &$want, $wv);
    }};
}
macro_rules! assigns {
    ($w:expr, $name:expr, $a:expr, $b:expr, $asg:tt, $want:expr, $wv:expr) => {{
        let (a, b) = (&$a, &$b);
        check_lin(concat!($name, " assign val"), attempt(|| { let mut x = a.clone(); x $asg b.clone(); x }), &$want, $wv);
        check_lin(concat!($name, " assign ref"), attempt(|| { let mut x = a.clone(); x $asg b; x }), &$want, $wv);
    }};
}

fn lin_case<const P: u64>(ma: Vec<Index>, mb: Vec<Index>, va: bool, vb: bool) {
    let w = world::<P>();
    let a = any_lc(&w, "a", &ma, va);
    let b = any_lc(&w, "b", &mb, vb);
    let (plus, minus) = (comb(&a, S::k(1), &b, S::k(1)), comb(&a, S::k(1), &b, S::k(P - 1)));
    let n0 = w.cs.n_cons();
    forms2!(&w, "add", a, b, +, +=, plus, va && vb);
    forms2!(&w, "sub", a, b, -, -=, minus, va && vb);
    assigns!(&w, "add", a, b, +=, plus, va && vb);
    assigns!(&w, "sub", a, b, -=, minus, va && vb);
    check("addition emits no constraint", Fm::bool(w.cs.n_cons() == n0 && w.cs.n_aux() == 2));
    cover("overlapping", Fm::bool(lc_of(&a).len() == ma.len() && lc_of(&b).len() == mb.len()));
}

fn lin_const_case<const P: u64>(ma: Vec<Index>, va: bool) {
    let w = world::<P>();
    let a = any_lc(&w, "a", &ma, va);
    let k = Num(S::<P>::var("k"));
    let kc = C::from_const(&w.cs, &k);
    let (one, mone) = (S::k(1), S::k(P - 1));
    let zero = C::zero(&w.cs);
    check("constant signal", Fm::and(vec![same_lc(&lc_of(&kc), &vec![(Index::Input(0), k)]), kc.value.map(|v| v.0.eq_fm(&k.0)).unwrap_or(Fm::F)]));
    check("zero signal", Fm::and(vec![same_lc(&lc_of(&zero), &vec![]), zero.value.map(|v| v.0.is_zero_fm()).unwrap_or(Fm::F)]));
    let neg = comb(&a, mone, &zero, one);
    check_lin("neg val", attempt(|| -a.clone()), &neg, va);
    check_lin("neg ref", attempt(|| -&a), &neg, va);
    let (plus, minus, rminus) = (comb(&a, one, &kc, one), comb(&a, one, &kc, mone), comb(&a, mone, &kc, one));
    forms2!(&w, "add const", a, k, +, +=, plus, va);
    forms2!(&w, "const add", k, a, +, +=, plus, va);
    forms2!(&w, "sub const", a, k, -, -=, minus, va);
    forms2!(&w, "const sub", k, a, -, -=, rminus, va);
    assigns!(&w, "add const", a, k, +=, plus, va);
    assigns!(&w, "sub const", a, k, -=, minus, va);
    let kz = decide_zero(&k.0);
    if va || !kz {
        let times = comb(&a, k.0, &zero, one);
        forms2!(&w, "mul const", a, k, *, *=, times, va);
        forms2!(&w, "const mul", k, a, *, *=, times, va);
        assigns!(&w, "mul const", a, k, *=, times, va);
    }
    // as_const exactly when no wire is mentioned
    let l = lc_of(&a);
    let mentions = l.iter().any(|(i, _)| *i != Index::Input(0));
    match a.as_const() {
        Some(v) => check("as_const", Fm::and(vec![Fm::bool(!mentions), same_lc(&l, &vec![(Index::Input(0), v)])])),
        None => check("as_const", Fm::bool(mentions)),
    }
    let n0 = w.cs.n_cons();
    check("constant operations emit no constraint", Fm::bool(n0 == 0 && w.cs.n_aux() == 2));
    if !kz {
        let quot = comb(&a, Num(k.0).inverse().0, &zero, one);
        forms2!(&w, "div const", a, k, /, /=, quot, va);
        assigns!(&w, "div const", a, k, /=, quot, va);
        cover("nonzero divisor", Fm::T);
    } else {
        cover("zero multiplier", Fm::T);
    }
}

/// long linear combinations with fixed coefficients, terms of which cancel: every third wire is a public input
fn long_lin_case<const P: u64>(ra: (usize, usize), rb: (usize, usize)) {
    let cs = RecCS::<P>::new();
    let mut w: Vec<C<P>> = vec![];
    for i in 0..100 {
        let x = S::<P>::var(&format!("x{}", i));
        let ix = if i % 3 == 0 { fawkes_crypto::core::cs::ConstraintSystem::alloc_input(&cs, Some(Num(x))) } else { fawkes_crypto::core::cs::ConstraintSystem::alloc(&cs, Some(Num(x))) };
        w.push(C::from_var(&cs, Some(Num(x)), ix));
    }
    w.sort_by_key(|x| lc_of(x)[0].0);
    let sum = |r: (usize, usize), f: &dyn Fn(usize) -> u64, k: u64| {
        let mut c = C::from_const(&cs, &Num(S::<P>::k(k)));
        let mut v = S::<P>::k(k);
        for i in r.0..r.1 {
            c.lc.push_back((lc_of(&w[i])[0].0, Num(S::k(f(i)))));
            v = v.a(&w[i].value.unwrap().0.sc(f(i)));
        }
        c.value = Some(Num(v));
        c
    };
    // i = 0 mod 5: cancels in a + b; i = 1 mod 5: cancels in a - b
    let fa = |i: usize| 1 + (i as u64) % (P - 1);
    let fb = |i: usize| match i % 5 { 0 => P - fa(i), 1 => fa(i), _ => 1 + (i as u64 * 3 + 1) % (P - 1) };
    let (a, b) = (sum(ra, &fa, 4), sum(rb, &fb, 6));
    let n0 = (cs.n_cons(), cs.n_aux());
    let (plus, minus, neg) = (comb(&a, S::k(1), &b, S::k(1)), comb(&a, S::k(1), &b, S::k(P - 1)), comb(&a, S::k(P - 1), &C::zero(&cs), S::k(1)));
    forms2!(&cs, "add", a, b, +, +=, plus, true);
    forms2!(&cs, "sub", a, b, -, -=, minus, true);
    assigns!(&cs, "add", a, b, +=, plus, true);
    assigns!(&cs, "sub", a, b, -=, minus, true);
    check_lin("neg", attempt(|| -&a), &neg, true);
    let k = Num(S::<P>::k(5));
    let (times, quot) = (comb(&a, k.0, &C::zero(&cs), S::k(1)), comb(&a, k.inverse().0, &C::zero(&cs), S::k(1)));
    forms2!(&cs, "mul const", a, k, *, *=, times, true);
    forms2!(&cs, "const mul", k, a, *, *=, times, true);
    forms2!(&cs, "div const", a, k, /, /=, quot, true);
    let kp = comb(&a, S::k(1), &C::from_const(&cs, &k), S::k(1));
    forms2!(&cs, "add const", a, k, +, +=, kp, true);
    check("long as_const", Fm::bool(a.as_const().is_none() && b.as_const().is_none()));
    check("no constraint", Fm::bool(n0 == (cs.n_cons(), cs.n_aux())));
    cover("end", Fm::T);
}

/// operand shapes for the multiplicative operators
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sh {
    Wire,
    Const,
    Lc,
    /// a sum of many wires and a constant
    Long,
}
const LONG: usize = 40;
fn long_coeff<const P: u64>(i: usize) -> u64 {
    1 + (i as u64 * 7 + 3) % (P - 1)
}
pub fn operand<'a, const P: u64>(cs: &'a RecCS<P>, sh: Sh, tag: &str, ins: &mut dyn Iterator<Item = C<'a, P>>) -> C<'a, P> {
    match sh {
        Sh::Wire => ins.next().unwrap(),
        Sh::Const => C::from_const(cs, &Num(S::var(&format!("{}k", tag)))),
        Sh::Lc => {
            let x = ins.next().unwrap();
            x * Num(S::k(3)) + C::from_const(cs, &Num(S::k(5)))
        }
        Sh::Long => {
            let mut r = C::from_const(cs, &Num(S::k(2)));
            for i in 0..LONG {
                r = r + ins.next().unwrap() * Num(S::k(long_coeff::<P>(i)));
            }
            r
        }
    }
}
pub fn operand_val<const P: u64>(sh: Sh, tag: &str, ins: &mut dyn Iterator<Item = S<P>>) -> S<P> {
    match sh {
        Sh::Wire => ins.next().unwrap(),
        Sh::Const => S::var(&format!("{}k", tag)),
        Sh::Lc => ins.next().unwrap().sc(3).a(&S::k(5)),
        Sh::Long => (0..LONG).fold(S::k(2), |r, i| r.a(&ins.next().unwrap().sc(long_coeff::<P>(i)))),
    }
}
/// values of the wires: all symbolic, except that of a long sum only the first, a middle and the last are
fn wire_vals<const P: u64>(v: &[Sh]) -> Vec<S<P>> {
    let mut r = vec![];
    for (k, sh) in v.iter().enumerate() {
        for i in 0..n_wires(&[*sh]) {
            r.push(if *sh != Sh::Long || [0, LONG / 2, LONG - 1].contains(&i) { S::var(&format!("x{}", r.len())) } else { S::k((i + k) as u64 % P) });
        }
    }
    r
}
pub fn n_wires(v: &[Sh]) -> usize {
    v.iter().map(|s| match s { Sh::Const => 0, Sh::Long => LONG, _ => 1 }).sum()
}

#[derive(Clone, Copy, Debug)]
enum MOp {
    Mul,
    MulRef,
    MulRv,
    MulVr,
    MulAssign,
    MulAssignRef,
    Square,
    Div,
    DivRef,
    DivRv,
    DivVr,
    DivAssign,
    DivAssignRef,
}

fn mul_case<const P: u64>(op: MOp, sa: Sh, sb: Sh) {
    let ins = wire_vals::<P>(&[sa, sb]);
    let mut it = ins.iter().cloned();
    let va = operand_val(sa, "a", &mut it);
    let vb = operand_val(sb, "b", &mut it);
    let div = format!("{:?}", op).starts_with("Div");
    let g = Gadget::new(&format!("{:?}", op), &ins)
        .given(if div { vb.is_zero_fm().not() } else { Fm::T });
    if div && sb == Sh::Const {
        assume(vb.is_zero_fm().not());
    }
    g.run(
        |cs, w| {
            let mut it = w.iter().cloned();
            let a = operand(cs, sa, "a", &mut it);
            let b = operand(cs, sb, "b", &mut it);
            vec![match op {
                MOp::Mul => a * b,
                MOp::MulRef => &a * &b,
                MOp::MulRv => &a * b,
                MOp::MulVr => a * &b,
                MOp::MulAssign => {
                    let mut x = a;
                    x *= b;
                    x
                }
                MOp::MulAssignRef => {
                    let mut x = a;
                    x *= &b;
                    x
                }
                MOp::Square => a.square(),
                MOp::Div => a / b,
                MOp::DivRef => &a / &b,
                MOp::DivRv => &a / b,
                MOp::DivVr => a / &b,
                MOp::DivAssign => {
                    let mut x = a;
                    x /= b;
                    x
                }
                MOp::DivAssignRef => {
                    let mut x = a;
                    x /= &b;
                    x
                }
            }]
        },
        |o| match op {
            MOp::Square => o[0].eq_fm(&va.sq()),
            _ if div => o[0].m(&vb).eq_fm(&va),
            _ => o[0].eq_fm(&va.m(&vb)),
        },
    );
}

/// x op x with the two operands the same signal
fn alias_case<const P: u64>() {
    let ins = vars::<P>("x", 1);
    Gadget::new("aliased", &ins).given(ins[0].is_zero_fm().not()).run(
        |_, w| {
            let x = &w[0];
            vec![x + x, x - x, x * x, x / x, (x - x) * x, (x - x) + x]
        },
        |o| {
            let x = ins[0];
            eqs(o, &[x.sc(2), S::k(0), x.sq(), S::k(1), S::k(0), x])
        },
    );
    Gadget::new("expression", &vars::<P>("y", 3)).run(
        |_, w| {
            let (a, b, c) = (&w[0], &w[1], &w[2]);
            vec![(a + b) * (a - b) + c * Num::from(2), (a * b) * c - a * (b * c)]
        },
        |o| {
            let y = vars::<P>("y", 3);
            eqs(o, &[y[0].sq().s(&y[1].sq()).a(&y[2].sc(2)), S::k(0)])
        },
    );
}

fn zero_case<const P: u64>(sh: Sh) {
    let ins = wire_vals::<P>(&[sh]);
    let x = operand_val(sh, "a", &mut ins.iter().cloned());
    let z = x.is_zero_fm();
    // the result is 1 exactly when the operand is zero, and always a bit
    Gadget::new("is_zero", &ins).run(
        |cs, w| vec![operand(cs, sh, "a", &mut w.iter().cloned()).is_zero().0],
        |o| Fm::and(vec![Fm::implies(z.clone(), o[0].eqk_fm(1)), Fm::implies(z.clone().not(), o[0].is_zero_fm())]),
    );
}

/// assertion gadgets: satisfiable exactly when the asserted fact is true
fn assert_case<const P: u64>(sa: Sh, sb: Sh, which: &'static str) {
    let two = matches!(which, "assert_eq" | "is_eq");
    let shapes: Vec<Sh> = if two { vec![sa, sb] } else { vec![sa] };
    let ins = wire_vals::<P>(&shapes);
    let mut it = ins.iter().cloned();
    let a = operand_val(sa, "a", &mut it);
    let b = if two { operand_val(sb, "b", &mut it) } else { S::k(0) };
    let k = S::<P>::var("c");
    let fact = match which {
        "assert_zero" => a.is_zero_fm(),
        "assert_nonzero" => a.is_zero_fm().not(),
        "assert_bit" => a.is_bit_fm(),
        "assert_const" => a.eq_fm(&k),
        "assert_eq" => a.eq_fm(&b),
        "is_eq" => a.eq_fm(&b),
        _ => unreachable!(),
    };
    let all_const = shapes.iter().all(|s| *s == Sh::Const);
    if which == "is_eq" {
        Gadget::new(which, &ins).run(
            |cs, w| {
                let mut it = w.iter().cloned();
                let x = operand(cs, sa, "a", &mut it);
                let y = operand(cs, sb, "b", &mut it);
                vec![x.is_eq(&y).0]
            },
            |o| Fm::and(vec![Fm::implies(fact.clone(), o[0].eqk_fm(1)), Fm::implies(fact.clone().not(), o[0].is_zero_fm())]),
        );
        return;
    }
    if all_const {
        // constants: the assertion is decided at once; a false one panics
        let cs = RecCS::<P>::new();
        let r = attempt(|| do_assert(&cs, &[], sa, sb, which, &k));
        check(format!("{}: constant assertion passes iff true", which), Fm::iff(Fm::bool(r.is_ok()), fact.clone()));
        if r.is_ok() {
            let adv = cs.adversary("", &[]);
            check(format!("{}: constant assertion adds nothing unsatisfiable", which), cs.sat(&adv));
            cover("true assertion", Fm::T);
        } else {
            cover("false assertion", Fm::T);
        }
        return;
    }
    Gadget::new(which, &ins).accept(fact.clone()).run(
        |cs, w| {
            do_assert(cs, w, sa, sb, which, &k);
            vec![]
        },
        |_| fact.clone(),
    );
}
fn do_assert<'a, const P: u64>(cs: &'a RecCS<P>, w: &[C<'a, P>], sa: Sh, sb: Sh, which: &str, k: &S<P>) {
    let mut it = w.iter().cloned();
    let x = operand(cs, sa, "a", &mut it);
    match which {
        "assert_zero" => x.assert_zero(),
        "assert_nonzero" => x.assert_nonzero(),
        "assert_bit" => x.assert_bit(),
        "assert_const" => x.assert_const(&Num(*k)),
        "assert_eq" => {
            let y = operand(cs, sb, "b", &mut it);
            x.assert_eq(&y)
        }
        _ => unreachable!(),
    }
}

pub const SH: [Sh; 3] = [Sh::Wire, Sh::Const, Sh::Lc];

fn c01<const P: u64>(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    let w = wires();
    let masks: Vec<(Vec<Index>, Vec<Index>)> = match tier {
        Tier::Quick => vec![
            (vec![w[0], w[1], w[3]], vec![w[0], w[1], w[3]]),
            (vec![w[1], w[2], w[4]], vec![w[1], w[3], w[4]]),
            (vec![w[0], w[2], w[3], w[4]], vec![w[1], w[3]]),
            (vec![w[1], w[3]], vec![w[0], w[2], w[3], w[4]]),
        ],
        Tier::Thorough => vec![
            (w.clone(), vec![w[0], w[1], w[3]]),
            (vec![w[0], w[1], w[3]], w.clone()),
            (w[..4].to_vec(), w[1..].to_vec()),
            (w[1..].to_vec(), w[1..].to_vec()),
            (vec![w[1], w[2], w[4]], vec![w[1], w[3], w[4]]),
        ],
    };
    for (i, (a, b)) in masks.into_iter().enumerate() {
        for (va, vb) in [(true, true), (true, false), (false, true)] {
            if i > 0 && !(va && vb) {
                continue;
            }
            let (a, b) = (a.clone(), b.clone());
            v.push(case(
                format!("linear/p{}/{}/{}{}", P, i, va, vb),
                format!("GF({}), left over {:?}, right over {:?}, all coefficients and wire values", P, a, b),
                move || lin_case::<P>(a.clone(), b.clone(), va, vb),
            ));
        }
    }
    for va in [true, false] {
        let m = vec![w[0], w[1], w[3]];
        v.push(case(
            format!("linear-const/p{}/{}", P, va),
            format!("GF({}), operand over {:?}, all constants", P, m),
            move || lin_const_case::<P>(m.clone(), va),
        ));
    }
    use MOp::*;
    for op in [Mul, MulRef, MulRv, MulVr, MulAssign, MulAssignRef, Square, Div, DivRef, DivRv, DivVr, DivAssign, DivAssignRef] {
        for sa in SH {
            for sb in SH {
                if matches!(op, Square) && sb != Sh::Wire {
                    continue;
                }
                v.push(case(
                    format!("{:?}/p{}/{:?}-{:?}", op, P, sa, sb),
                    format!("GF({}), operand shapes {:?},{:?}, all values, all assignments of new wires", P, sa, sb),
                    move || mul_case::<P>(op, sa, sb),
                ));
            }
        }
    }
    for op in [Mul, MulRef, MulRv, MulVr, MulAssign, MulAssignRef, Square, Div, DivRef, DivRv, DivVr, DivAssign, DivAssignRef] {
        for (sa, sb) in [(Sh::Long, Sh::Wire), (Sh::Wire, Sh::Long), (Sh::Long, Sh::Long)] {
            if matches!(op, Square) && sb != Sh::Wire {
                continue;
            }
            v.push(case(format!("{:?}/p{}/{:?}-{:?}", op, P, sa, sb), format!("GF({}), sums of {} wires (three of them symbolic), all assignments of new wires", P, LONG), move || mul_case::<P>(op, sa, sb)));
        }
    }
    for (ra, rb) in [((0, 60), (0, 60)), ((0, 60), (30, 90)), ((30, 90), (0, 60)), ((0, 60), (60, 100)), ((60, 100), (0, 60)), ((0, 3), (0, 90)), ((0, 90), (50, 52))] {
        v.push(case(format!("linear-long/p{}/{:?}{:?}", P, ra, rb), format!("GF({}), linear combinations over 2 to 90 wires, fixed coefficients, all wire values", P), move || long_lin_case::<P>(ra, rb)));
    }
    v.push(case(format!("aliased/p{}", P), format!("GF({})", P), alias_case::<P>));
    v
}

fn c02<const P: u64>(_tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    let l = format!("GF({}), sums of {} wires (three of them symbolic)", P, LONG);
    v.push(case(format!("is_zero/p{}/Long", P), l.clone(), move || zero_case::<P>(Sh::Long)));
    for w in ["assert_zero", "assert_nonzero", "assert_bit", "assert_const"] {
        v.push(case(format!("{}/p{}/Long", w, P), l.clone(), move || assert_case::<P>(Sh::Long, Sh::Wire, w)));
    }
    for w in ["assert_eq", "is_eq"] {
        for (a, b) in [(Sh::Long, Sh::Wire), (Sh::Wire, Sh::Long), (Sh::Long, Sh::Long)] {
            v.push(case(format!("{}/p{}/{:?}-{:?}", w, P, a, b), l.clone(), move || assert_case::<P>(a, b, w)));
        }
    }
    for sh in SH {
        v.push(case(format!("is_zero/p{}/{:?}", P, sh), format!("GF({})", P), move || zero_case::<P>(sh)));
        for w in ["assert_zero", "assert_nonzero", "assert_bit", "assert_const"] {
            v.push(case(format!("{}/p{}/{:?}", w, P, sh), format!("GF({})", P), move || assert_case::<P>(sh, Sh::Wire, w)));
        }
        for sb in SH {
            for w in ["assert_eq", "is_eq"] {
                v.push(case(format!("{}/p{}/{:?}-{:?}", w, P, sh, sb), format!("GF({})", P), move || assert_case::<P>(sh, sb, w)));
            }
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            functions: &["circuit::num::CNum: Add/Sub/Mul/Div/Neg and their *Assign, by value and by reference, with CNum and Num operands; square; as_const; from_const; alloc"],
            outside: "other primes than the listed ones; linear combinations over more wires than listed",
            cases: Box::new(|t| {
                let mut v = c01::<13>(t);
                if t == Tier::Thorough {
                    v.extend(c01::<61>(t));
                    v.extend(c01::<257>(t));
                }
                v
            }),
        },
        Prop {
            id: "C02",
            functions: &["circuit::num::CNum::{is_zero,is_eq,assert_zero,assert_nonzero,assert_bit,assert_const,assert_eq,into_bool}"],
            outside: "other primes than the listed ones",
            cases: Box::new(|t| {
                let mut v = c02::<13>(t);
                v.extend(c02::<31>(t));
                if t == Tier::Thorough {
                    v.extend(c02::<257>(t));
                    v.extend(c02::<1021>(t));
                }
                v
            }),
        },
    ]
}
