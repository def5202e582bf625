//! Small curves of exactly the shape the library works with: -x^2+y^2 = 1+d x^2 y^2 over GF(P),
//! d a nonsquare, P = 1 mod 4, group order 8*Q; and an independent reference implementation of
//! the group (plain integers, affine addition law) used as the oracle.
use crate::engine::*;
use crate::field::S;
use fawkes_crypto::native::ecc::{EdwardsPoint, JubJubParams, MontgomeryPoint};
use fawkes_crypto::native::num::Num;

pub type Pt = (u64, u64);

/// the reference group
#[derive(Clone)]
pub struct Ref {
    pub p: u64,
    pub d: u64,
    pub pts: Vec<Pt>,
}
impl Ref {
    pub fn new(p: u64, d: u64) -> Ref {
        assert!(p % 4 == 1 && !is_square(d, p));
        let mut pts = vec![];
        for x in 0..p {
            for y in 0..p {
                if (y * y + p * p - x * x) % p == (1 + d * x % p * x % p * y % p * y) % p {
                    pts.push((x, y));
                }
            }
        }
        Ref { p, d, pts }
    }
    pub fn add(&self, a: Pt, b: Pt) -> Pt {
        let p = self.p;
        let m = |x: u64, y: u64| x * y % p;
        let t = m(self.d, m(m(a.0, b.0), m(a.1, b.1)));
        let x = m((m(a.0, b.1) + m(a.1, b.0)) % p, inv_mod((1 + t) % p, p));
        let y = m((m(a.1, b.1) + m(a.0, b.0)) % p, inv_mod((1 + p - t) % p, p));
        (x, y)
    }
    pub fn neg(&self, a: Pt) -> Pt {
        ((self.p - a.0) % self.p, a.1)
    }
    pub fn mul(&self, n: u64, a: Pt) -> Pt {
        let mut r = (0, 1);
        for _ in 0..n {
            r = self.add(r, a);
        }
        r
    }
    pub fn order(&self, a: Pt) -> u64 {
        let mut r = a;
        let mut n = 1;
        while r != (0, 1) {
            r = self.add(r, a);
            n += 1;
        }
        n
    }
    pub fn sub(&self, q: u64) -> Vec<Pt> {
        self.pts.iter().cloned().filter(|a| self.mul(q, *a) == (0, 1)).collect()
    }
    /// image on the Montgomery model; None: the point at infinity
    pub fn mont(&self, a: Pt) -> Option<Pt> {
        let p = self.p;
        if a == (0, 1) {
            return None;
        }
        if a.0 == 0 {
            return Some((0, 0));
        }
        let x = (1 + a.1) % p * inv_mod((1 + p - a.1) % p, p) % p;
        Some((x, x * inv_mod(a.0, p) % p))
    }
    pub fn ma(&self) -> u64 {
        2 * (1 + self.p - self.d) % self.p * inv_mod((1 + self.d) % self.p, self.p) % self.p
    }
    pub fn mb(&self) -> u64 {
        (self.p - 4) * inv_mod((1 + self.d) % self.p, self.p) % self.p
    }
    /// Elligator 2 on t+1, even root, cofactor cleared
    pub fn from_scalar(&self, t: u64, u: u64) -> Pt {
        let p = self.p;
        let (a, b) = (self.ma(), self.mb());
        let t = (t + 1) % p;
        let g = |x: u64| (x * x % p * x + a * x % p * x + x) % p * inv_mod(b, p) % p;
        let z = u * t % p * t % p;
        let x2 = (p - inv_mod(a, p)) * ((1 + inv_mod(z, p)) % p) % p;
        let x = if is_square(g(x2), p) { x2 } else { x2 * z % p };
        let mut y = (0..p).find(|y| y * y % p == g(x)).expect("one of the two is a square");
        if y % 2 == 1 {
            y = p - y;
        }
        let e = *self.pts.iter().find(|e| self.mont(**e) == Some((x, y))).expect("on the curve");
        self.mul(8, e)
    }
}

/// Parameters handed to the code under test.
#[derive(Clone)]
pub struct Tiny<const P: u64, const Q: u64> {
    pub g: EdwardsPoint<S<P>>,
    pub d: u64,
    pub a: u64,
    pub b: u64,
    pub u: u64,
}
impl<const P: u64, const Q: u64> JubJubParams for Tiny<P, Q> {
    type Fr = S<P>;
    type Fs = S<Q>;
    fn edwards_g(&self) -> &EdwardsPoint<S<P>> {
        &self.g
    }
    fn edwards_d(&self) -> Num<S<P>> {
        Num(S::k(self.d))
    }
    fn montgomery_a(&self) -> Num<S<P>> {
        Num(S::k(self.a))
    }
    fn montgomery_b(&self) -> Num<S<P>> {
        Num(S::k(self.b))
    }
    fn montgomery_u(&self) -> Num<S<P>> {
        Num(S::k(self.u))
    }
}

pub fn nonsq(p: u64, k: usize) -> u64 {
    (2..p).filter(|x| !is_square(*x, p)).nth(k).unwrap()
}

/// params (generator: the first subgroup point of order Q) and reference group
pub fn tiny<const P: u64, const Q: u64>(d: u64) -> (Tiny<P, Q>, Ref) {
    tiny_u(d, 0)
}
pub fn tiny_u<const P: u64, const Q: u64>(d: u64, k: usize) -> (Tiny<P, Q>, Ref) {
    let r = Ref::new(P, d);
    if Q > 1 {
        assert!(r.pts.len() as u64 == 8 * Q, "order");
    }
    let g = *r.pts.iter().find(|x| r.order(**x) == Q).expect("generator");
    let t = Tiny { g: ept(g), d, a: r.ma(), b: r.mb(), u: nonsq(P, k) };
    (t, r)
}

pub fn ept<const P: u64>(a: Pt) -> EdwardsPoint<S<P>> {
    EdwardsPoint { x: Num(S::k(a.0)), y: Num(S::k(a.1)) }
}
pub fn sept<const P: u64>(x: S<P>, y: S<P>) -> EdwardsPoint<S<P>> {
    EdwardsPoint { x: Num(x), y: Num(y) }
}
pub fn smpt<const P: u64>(x: S<P>, y: S<P>) -> MontgomeryPoint<S<P>> {
    MontgomeryPoint { x: Num(x), y: Num(y) }
}
pub fn is_pt<const P: u64>(x: &S<P>, y: &S<P>, a: Pt) -> Fm {
    Fm::and(vec![x.eqk_fm(a.0), y.eqk_fm(a.1)])
}
pub fn in_set<const P: u64>(x: &S<P>, y: &S<P>, set: &[Pt]) -> Fm {
    Fm::or(set.iter().map(|a| is_pt(x, y, *a)).collect())
}
/// y^2 - x^2 = 1 + d x^2 y^2
pub fn on_curve<const P: u64>(x: &S<P>, y: &S<P>, d: u64) -> Fm {
    let (x2, y2) = (x.sq(), y.sq());
    y2.s(&x2).eq_fm(&S::k(1).a(&x2.m(&y2).sc(d)))
}
/// for every point a of `set`: (x,y)=a implies (ox,oy)=f(a)
pub fn table1<const P: u64>(x: &S<P>, y: &S<P>, set: &[Pt], o: (&S<P>, &S<P>), f: impl Fn(Pt) -> Pt) -> Fm {
    Fm::and(set.iter().map(|a| Fm::implies(is_pt(x, y, *a), is_pt(o.0, o.1, f(*a)))).collect())
}
/// as table1, the antecedent grouped by result
pub fn table2<const P: u64>(
    a: (&S<P>, &S<P>),
    b: (&S<P>, &S<P>),
    sa: &[Pt],
    sb: &[Pt],
    o: (&S<P>, &S<P>),
    f: impl Fn(Pt, Pt) -> Option<Pt>,
) -> Fm {
    let mut v = vec![];
    for p in sa {
        let mut w = vec![];
        for q in sb {
            if let Some(r) = f(*p, *q) {
                w.push(Fm::implies(is_pt(b.0, b.1, *q), is_pt(o.0, o.1, r)));
            }
        }
        v.push(Fm::implies(is_pt(a.0, a.1, *p), Fm::and(w)));
    }
    Fm::and(v)
}
