//! C18 native group law, C19 native point decoding
use crate::curve::*;
use crate::driver::*;
use crate::engine::*;
use crate::field::S;
use fawkes_crypto::native::ecc::{EdwardsPoint, EdwardsPointEx};
use fawkes_crypto::native::num::Num;

type E<const P: u64> = EdwardsPoint<S<P>>;
type X<const P: u64> = EdwardsPointEx<S<P>>;

fn pt<const P: u64>(n: &str) -> (S<P>, S<P>) {
    (S::var(&format!("{}x", n)), S::var(&format!("{}y", n)))
}
/// (x z, y z, x y z, z)
fn ext<const P: u64>(x: &S<P>, y: &S<P>, z: &S<P>) -> X<P> {
    X { x: Num(x.m(z)), y: Num(y.m(z)), t: Num(x.m(y).m(z)), z: Num(*z) }
}
/// the extended point represents the affine point a (invariants of the representation included)
fn ext_is<const P: u64>(e: &X<P>, a: Pt) -> Fm {
    Fm::and(vec![
        e.z.0.is_zero_fm().not(),
        e.x.0.eq_fm(&e.z.0.sc(a.0)),
        e.y.0.eq_fm(&e.z.0.sc(a.1)),
        e.t.0.eq_fm(&e.z.0.sc(a.0 * a.1 % P)),
    ])
}
fn tab<const P: u64>(x: &S<P>, y: &S<P>, set: &[Pt], f: impl Fn(Pt) -> Fm) -> Fm {
    Fm::and(set.iter().map(|a| Fm::implies(is_pt(x, y, *a), f(*a))).collect())
}
fn must<T>(label: &str, r: Result<T, String>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            check(format!("{} panics: {}", label, e), Fm::F);
            None
        }
    }
}
fn eis<const P: u64>(o: &E<P>, a: Pt) -> Fm {
    is_pt(&o.x.0, &o.y.0, a)
}

fn unary<const P: u64, const Q: u64>(d: u64) {
    let (_, r) = tiny::<P, Q>(d);
    let (x, y) = pt::<P>("a");
    assume(in_set(&x, &y, &r.pts));
    let e = sept(x, y);
    if let Some(o) = must("double", attempt(|| e.double())) {
        check("double", tab(&x, &y, &r.pts, |a| eis(&o, r.add(a, a))));
    }
    if let Some(o) = must("mul_by_cofactor", attempt(|| e.mul_by_cofactor())) {
        check("mul_by_cofactor", tab(&x, &y, &r.pts, |a| eis(&o, r.mul(8, a))));
    }
    let z = S::<P>::var("z");
    assume(z.is_zero_fm().not());
    let g = ext(&x, &y, &z);
    if let Some(o) = must("ext double", attempt(|| g.double())) {
        check("ext double", tab(&x, &y, &r.pts, |a| ext_is(&o, r.add(a, a))));
    }
    if let Some(o) = must("ext negate", attempt(|| g.negate())) {
        check("ext negate", tab(&x, &y, &r.pts, |a| ext_is(&o, r.neg(a))));
    }
    if let Some(o) = must("ext into_affine", attempt(|| g.into_affine())) {
        check("ext into_affine", tab(&x, &y, &r.pts, |a| eis(&o, a)));
    }
    if let Some(o) = must("into_extended", attempt(|| e.into_extended())) {
        check("into_extended", tab(&x, &y, &r.pts, |a| ext_is(&o, a)));
    }
    cover("end", Fm::T);
}
fn binary<const P: u64, const Q: u64>(d: u64, scaled: bool) {
    let (t, r) = tiny::<P, Q>(d);
    let (mut ax, mut ay) = pt::<P>("a");
    let (bx, by) = pt::<P>("b");
    assume(Fm::and(vec![in_set(&ax, &ay, &r.pts), in_set(&bx, &by, &r.pts)]));
    if scaled {
        // one path per left operand; the right operand and both scalings stay symbolic
        ax = S::k(decide_value(ax.0));
        ay = S::k(decide_value(ay.0));
    }
    if !scaled {
        if let Some(o) = must("add", attempt(|| sept(ax, ay).add(&sept(bx, by), &t))) {
            check("add", tab(&ax, &ay, &r.pts, |a| tab(&bx, &by, &r.pts, |b| eis(&o, r.add(a, b)))));
        }
        let eq = attempt(|| sept(ax, ay) == sept(bx, by));
        if let Some(q) = must("eq", eq) {
            check("eq", Fm::iff(Fm::bool(q), Fm::and(vec![ax.eq_fm(&bx), ay.eq_fm(&by)])));
        }
    } else {
        let (z, w) = (S::<P>::var("z"), S::<P>::var("w"));
        assume(Fm::and(vec![z.is_zero_fm().not(), w.is_zero_fm().not()]));
        let (g, h) = (ext(&ax, &ay, &z), ext(&bx, &by, &w));
        if let Some(o) = must("ext add", attempt(|| g.add(&h, &t))) {
            check("ext add", tab(&ax, &ay, &r.pts, |a| tab(&bx, &by, &r.pts, |b| ext_is(&o, r.add(a, b)))));
        }
    }
    cover("end", Fm::T);
}
fn ext_eq<const P: u64, const Q: u64>(d: u64) {
    let (_, r) = tiny::<P, Q>(d);
    let (ax, ay) = pt::<P>("a");
    let (bx, by) = pt::<P>("b");
    let (z, w) = (S::<P>::var("z"), S::<P>::var("w"));
    assume(Fm::and(vec![in_set(&ax, &ay, &r.pts), in_set(&bx, &by, &r.pts), z.is_zero_fm().not(), w.is_zero_fm().not()]));
    let (g, h) = (ext(&ax, &ay, &z), ext(&bx, &by, &w));
    if let Some(q) = must("ext eq", attempt(|| g == h)) {
        check("ext eq iff the same point", Fm::iff(Fm::bool(q), Fm::and(vec![ax.eq_fm(&bx), ay.eq_fm(&by)])));
    }
    cover("end", Fm::T);
}
fn preds<const P: u64, const Q: u64>(d: u64) {
    let (t, r) = tiny::<P, Q>(d);
    let (x, y) = pt::<P>("a");
    let e = sept(x, y);
    if let Some(b) = must("is_in_curve", attempt(|| e.is_in_curve(&t))) {
        check("is_in_curve", Fm::iff(Fm::bool(b), in_set(&x, &y, &r.pts)));
    }
    if let Some(b) = must("is_zero", attempt(|| e.is_zero())) {
        check("is_zero", Fm::iff(Fm::bool(b), is_pt(&x, &y, (0, 1))));
    }
    check("zero", eis(&E::<P>::zero(), (0, 1)));
    check("ext zero", ext_is(&X::<P>::zero(), (0, 1)));
    cover("end", Fm::T);
}
fn ext_preds<const P: u64, const Q: u64>(d: u64) {
    let (t, r) = tiny::<P, Q>(d);
    let v: Vec<S<P>> = ["x", "y", "t", "z"].iter().map(|n| S::var(n)).collect();
    let e = X::<P> { x: Num(v[0]), y: Num(v[1]), t: Num(v[2]), z: Num(v[3]) };
    let valid = Fm::or(r.pts.iter().map(|a| ext_is(&e, *a)).collect());
    if let Some(b) = must("ext is_in_curve", attempt(|| e.is_in_curve(&t))) {
        check("ext is_in_curve", Fm::iff(Fm::bool(b), valid.clone()));
    }
    assume(valid);
    if let Some(b) = must("ext is_zero", attempt(|| e.is_zero())) {
        check("ext is_zero", Fm::iff(Fm::bool(b), ext_is(&e, (0, 1))));
    }
    cover("end", Fm::T);
}
fn subgroup<const P: u64, const Q: u64>(d: u64) {
    let (t, r) = tiny::<P, Q>(d);
    let (x, y) = pt::<P>("a");
    assume(in_set(&x, &y, &r.pts));
    if let Some(b) = must("is_in_subgroup", attempt(|| sept(x, y).into_extended().is_in_subgroup(&t))) {
        check("is_in_subgroup", Fm::iff(Fm::bool(b), in_set(&x, &y, &r.sub(Q))));
        cover(format!("is_in_subgroup {}", b), Fm::T);
    }
}
fn mont<const P: u64, const Q: u64>(d: u64) {
    let (_, r) = tiny::<P, Q>(d);
    let (x, y) = pt::<P>("a");
    assume(in_set(&x, &y, &r.pts));
    if let Some(o) = must("into_montgomery", attempt(|| sept(x, y).into_montgomery())) {
        match o {
            None => check("into_montgomery: infinity only for zero", is_pt(&x, &y, (0, 1))),
            Some(m) => check(
                "into_montgomery",
                tab(&x, &y, &r.pts, |a| r.mont(a).map(|b| is_pt(&m.x.0, &m.y.0, b)).unwrap_or(Fm::F)),
            ),
        }
    }
    let z = S::<P>::var("z");
    assume(z.is_zero_fm().not());
    if let Some(o) = must("ext into_montgomery", attempt(|| ext(&x, &y, &z).into_montgomery())) {
        match o {
            None => check("ext into_montgomery: infinity only for zero", is_pt(&x, &y, (0, 1))),
            Some(m) => check(
                "ext into_montgomery",
                tab(&x, &y, &r.pts, |a| r.mont(a).map(|b| is_pt(&m.x.0, &m.y.0, b)).unwrap_or(Fm::F)),
            ),
        }
    }
    cover("end", Fm::T);
}
fn from_mont<const P: u64, const Q: u64>(d: u64) {
    let (_, r) = tiny::<P, Q>(d);
    let (x, y) = pt::<P>("m");
    let ms: Vec<(Pt, Pt)> = r.pts.iter().filter_map(|a| r.mont(*a).map(|m| (m, *a))).collect();
    assume(in_set(&x, &y, &ms.iter().map(|v| v.0).collect::<Vec<_>>()));
    if let Some(o) = must("into_affine", attempt(|| smpt(x, y).into_affine())) {
        check("montgomery into_affine", Fm::and(ms.iter().map(|(m, a)| Fm::implies(is_pt(&x, &y, *m), eis(&o, *a))).collect()));
    }
    if let Some(o) = must("into_extended", attempt(|| smpt(x, y).into_extended())) {
        check("montgomery into_extended", Fm::and(ms.iter().map(|(m, a)| Fm::implies(is_pt(&x, &y, *m), ext_is(&o, *a))).collect()));
    }
    cover("end", Fm::T);
}
fn mul<const P: u64, const Q: u64>(d: u64) {
    small_literals();
    let (t, r) = tiny::<P, Q>(d);
    let (x, y) = pt::<P>("a");
    assume(in_set(&x, &y, &r.pts));
    let n = S::<Q>::var("n");
    if let Some(o) = must("mul", attempt(|| sept(x, y).mul(Num(n), &t))) {
        check(
            "mul",
            Fm::and((0..Q).map(|k| Fm::implies(n.eqk_fm(k), tab(&x, &y, &r.pts, |a| eis(&o, r.mul(k, a))))).collect()),
        );
        cover("mul", Fm::T);
    }
}
/// scalars of several machine words (a wide scalar field of concrete values over the same curve)
fn mul_wide<const P: u64>(d: u64, k: [u64; 4]) {
    let r = Ref::new(P, d);
    let t = crate::wide::WideParams::<P> { g: ept((0, 1)), d };
    let (x, y) = pt::<P>("a");
    assume(in_set(&x, &y, &r.pts));
    let a = (decide_value(x.0), decide_value(y.0));
    let ord = r.pts.len() as u64;
    let mut m = 0u64;
    for i in (0..4).rev() {
        m = ((m as u128 * ((1u128 << 64) % ord as u128) + (k[i] % ord) as u128) % ord as u128) as u64;
    }
    if let Some(o) = must("mul by a wide scalar", attempt(|| ept::<P>(a).mul(Num(crate::wide::W(k)), &t))) {
        check("mul by a wide scalar", eis(&o, r.mul(m, a)));
    }
    cover("end", Fm::T);
}

fn c18(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    macro_rules! cv {
        ($p:literal, $q:literal, $d:literal, $full:expr) => {{
            let b = format!("GF({}), d={}: every point of the curve ({} points), every projective scaling", $p, $d, 8 * $q);
            let n = |s: &str| format!("p{}d{}/{}", $p, $d, s);
            v.push(case(n("unary"), b.clone(), || unary::<$p, $q>($d)));
            v.push(case(n("add"), b.clone(), || binary::<$p, $q>($d, false)));
            v.push(case(n("preds"), b.clone(), || preds::<$p, $q>($d)));
            v.push(case(n("mont"), b.clone(), || mont::<$p, $q>($d)));
            v.push(case(n("from_mont"), b.clone(), || from_mont::<$p, $q>($d)));
            v.push(case(n("mul"), format!("{}, every scalar of GF({})", b, $q), || mul::<$p, $q>($d)));
            if $full {
                v.push(case(n("ext_add"), b.clone(), || binary::<$p, $q>($d, true)));
                v.push(case(n("ext_eq"), b.clone(), || ext_eq::<$p, $q>($d)));
                v.push(case(n("ext_preds"), b.clone(), || ext_preds::<$p, $q>($d)));
            }
        }};
    }
    cv!(17, 3, 7, true);
    cv!(29, 5, 27, false);
    for (i, k) in [
        [5u64, 0, 0, 0],
        [1 << 63, 0, 0, 0],
        [0, 1, 0, 0],
        [3, 5, 0, 0],
        [u64::MAX, u64::MAX, u64::MAX, u64::MAX >> 2],
        [0, 0, 0, 1 << 61],
        [0x0123456789abcdef, 0xfedcba9876543210, 0x0f0f0f0f0f0f0f0f, 0x1234567890abcdef],
    ]
    .into_iter()
    .enumerate()
    {
        v.push(case(format!("p17d7/mul_wide{}", i), format!("GF(17): the scalar {:x?} (little-endian words) and every point", k), move || mul_wide::<17>(7, k)));
    }
    if tier == Tier::Thorough {
        cv!(17, 3, 14, true);
        cv!(29, 3, 3, true);
        cv!(37, 5, 2, false);
        cv!(53, 7, 3, false);
    }
    v
}

fn for_y<const P: u64, const Q: u64>(d: u64, sign: bool) {
    let (t, r) = tiny::<P, Q>(d);
    let y = S::<P>::var("y");
    if let Some(o) = must("get_for_y", attempt(|| E::<P>::get_for_y(Num(y), sign, &t))) {
        match o {
            None => check("get_for_y: refuses only ordinates of no point", Fm::or(r.pts.iter().map(|a| y.eqk_fm(a.1)).collect()).not()),
            Some(e) => check(
                "get_for_y",
                Fm::and(vec![
                    in_set(&e.x.0, &e.y.0, &r.pts),
                    e.y.0.eq_fm(&y),
                    Fm::or(vec![e.x.0.is_zero_fm(), Fm::iff(e.x.0.odd_fm(), Fm::bool(sign))]),
                ]),
            ),
        }
        cover(format!("get_for_y {}", o.is_some()), Fm::T);
    }
}
fn decompress<const P: u64, const Q: u64>(d: u64) {
    small_literals();
    let (t, r) = tiny::<P, Q>(d);
    let x = S::<P>::var("x");
    let sub = r.sub(Q);
    if let Some(o) = must("subgroup_decompress", attempt(|| E::<P>::subgroup_decompress(Num(x), &t))) {
        match o {
            None => check("decompress: refuses only abscissas of no subgroup point", Fm::or(sub.iter().map(|a| x.eqk_fm(a.0)).collect()).not()),
            Some(e) => check("decompress", Fm::and(vec![in_set(&e.x.0, &e.y.0, &sub), e.x.0.eq_fm(&x)])),
        }
        cover(format!("decompress {}", o.is_some()), Fm::T);
    }
}
fn subgroup_case<const P: u64, const Q: u64>(d: u64) {
    small_literals();
    subgroup::<P, Q>(d)
}
struct OneBit(bool, u32);
impl rand::Rng for OneBit {
    fn next_u32(&mut self) -> u32 {
        self.1 += 1;
        if self.1 > 2 {
            abort_path() // bound: at most two draws
        }
        if self.0 {
            u32::MAX
        } else {
            0
        }
    }
}
fn random<const P: u64, const Q: u64>(d: u64, sign: bool) {
    let (t, r) = tiny::<P, Q>(d);
    symbolic_rand();
    let mut rng = OneBit(sign, 0);
    if let Some(e) = must("rand", attempt(|| E::<P>::rand(&mut rng, &t))) {
        check("rand returns a point of the curve", in_set(&e.x.0, &e.y.0, &r.pts));
        for a in &r.pts {
            // every point can be drawn
            let odd = a.0 % 2 == 1;
            if rng.1 == 1 && (a.0 == 0 || odd == (rand::Rng::gen::<bool>(&mut OneBit(sign, 0)))) {
                cover(format!("rand {:?}", a), eis(&e, *a));
            }
        }
    }
}
fn c19(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    macro_rules! cv {
        ($p:literal, $q:literal, $d:literal) => {
            for hi in [false, true] {
                let b = format!("GF({}), d={}, subgroup order {}: every field element", $p, $d, $q);
                v.push(case(format!("p{}d{}/for_y0", $p, $d), b.clone(), || for_y::<$p, $q>($d, false)).hi(hi));
                v.push(case(format!("p{}d{}/for_y1", $p, $d), b.clone(), || for_y::<$p, $q>($d, true)).hi(hi));
                v.push(case(format!("p{}d{}/decompress", $p, $d), b.clone(), || decompress::<$p, $q>($d)).hi(hi));
                if !hi {
                    v.push(case(format!("p{}d{}/subgroup", $p, $d), b.clone(), || subgroup_case::<$p, $q>($d)));
                    v.push(case(format!("p{}d{}/rand0", $p, $d), format!("{}; at most two draws", b), || random::<$p, $q>($d, false)));
                    v.push(case(format!("p{}d{}/rand1", $p, $d), format!("{}; at most two draws", b), || random::<$p, $q>($d, true)));
                }
            }
        };
    }
    cv!(17, 3, 7);
    cv!(29, 5, 27);
    if tier == Tier::Thorough {
        cv!(29, 3, 3);
        cv!(37, 5, 2);
        cv!(53, 7, 3);
        cv!(61, 7, 2);
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            functions: &[
                "native::ecc::EdwardsPoint::{add, double, mul, mul_by_cofactor, is_in_curve, is_zero, zero, into_montgomery, into_extended}",
                "native::ecc::EdwardsPointEx::{add, double, negate, mul, mul_by_cofactor, is_in_curve, is_zero, into_affine, into_montgomery, eq}",
                "native::ecc::MontgomeryPoint::{into_affine, into_extended}",
            ],
            outside: "larger curves; scalars beyond the listed ones on wide scalar fields; points off the curve",
            cases: Box::new(c18),
        },
        Prop {
            id: "C19",
            functions: &["native::ecc::EdwardsPoint::{get_for_y, subgroup_decompress, rand}", "native::ecc::EdwardsPointEx::is_in_subgroup"],
            outside: "larger curves; more than two draws in random point sampling",
            cases: Box::new(c19),
        },
    ]
}
