//! C28: coordinate data of points, proofs and keys of the shipped pairing curves.  The code under
//! test is compiled against a copy of the pairing crate whose base fields are small and symbolic.
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::helpers::groth16::{
    prover::Proof,
    verifier::{TruncatedVerifyingKey, TruncatedVerifyingKeyData},
    G1PointData, G2PointData,
};
use pairing::small::{self, Cfg};
use pairing::CurveAffine;
use symcore::driver::{case, Case, Prop, Tier};
use symcore::engine::*;
mod c26;
mod sol;

/// an element a + b u of GF(p)[u]/(u^2+1)
type E = (u64, u64);
/// an affine point, None at infinity
type Pt = Option<(E, E)>;

fn mul(a: E, b: E, p: u64) -> E {
    ((a.0 * b.0 + p * p - a.1 * b.1 % p) % p, (a.0 * b.1 + a.1 * b.0) % p)
}
fn add(a: E, b: E, p: u64) -> E {
    ((a.0 + b.0) % p, (a.1 + b.1) % p)
}
fn neg(a: E, p: u64) -> E {
    ((p - a.0) % p, (p - a.1) % p)
}
fn inv(a: E, p: u64) -> E {
    let n = inv_mod((a.0 * a.0 + a.1 * a.1) % p, p);
    (a.0 * n % p, (p - a.1) % p * n % p)
}
fn padd(a: Pt, b: Pt, p: u64) -> Pt {
    let ((x1, y1), (x2, y2)) = match (a, b) {
        (None, q) | (q, None) => return q,
        (Some(a), Some(b)) => (a, b),
    };
    let l = if x1 == x2 {
        if add(y1, y2, p) == (0, 0) {
            return None;
        }
        mul(mul((3, 0), mul(x1, x1, p), p), inv(add(y1, y1, p), p), p)
    } else {
        mul(add(y2, neg(y1, p), p), inv(add(x2, neg(x1, p), p), p), p)
    };
    let x = add(mul(l, l, p), neg(add(x1, x2, p), p), p);
    Some((x, add(mul(l, add(x1, neg(x, p), p), p), neg(y1, p), p)))
}

#[derive(Clone, Copy, PartialEq)]
enum Curve {
    Bn,
    Bls,
}
fn coeff(c: Curve, ext: bool, p: u64) -> E {
    match (c, ext) {
        (Curve::Bn, false) => (3 % p, 0),
        // 3 / (9 + u)
        (Curve::Bn, true) => mul((3 % p, 0), inv((9 % p, 1), p), p),
        (Curve::Bls, false) => (4 % p, 0),
        (Curve::Bls, true) => (4 % p, 4 % p),
    }
}
/// the affine points of the subgroup of order r
fn subgroup(c: Curve, ext: bool, p: u64, r: u64) -> Vec<(E, E)> {
    let b = coeff(c, ext, p);
    let els: Vec<E> = (0..p).flat_map(|i| (0..if ext { p } else { 1 }).map(move |j| (i, j))).collect();
    let mut out = vec![];
    for x in &els {
        for y in &els {
            if mul(*y, *y, p) == add(mul(mul(*x, *x, p), *x, p), b, p) {
                let q = Some((*x, *y));
                let mut a = None;
                for _ in 0..r {
                    a = padd(a, q, p);
                }
                if a.is_none() {
                    out.push((*x, *y));
                }
            }
        }
    }
    assert_eq!(out.len() as u64 + 1, r, "the small curve has exactly one subgroup of that order");
    out
}

fn node_is(n: Id, v: u64) -> Fm {
    let d = with(|c| {
        let k = c.konst(v, small::p());
        c.sub(n, k)
    });
    zf(d)
}
fn zf(n: Id) -> Fm {
    with(|x| {
        let c = x.norm_cond(Cond::Zero(n));
        match x.eval_cond(&c) {
            Some(b) => Fm::bool(b),
            None => Fm::C(c),
        }
    })
}
fn same(a: Id, b: Id) -> Fm {
    zf(with(|c| c.sub(a, b)))
}
fn var(name: &str) -> Id {
    with(|c| c.var(name, small::p()))
}
/// membership of coordinates (two nodes in G1, four in G2) in a list of points
fn member(v: &[Id], pts: &[(E, E)]) -> Fm {
    let mut o = vec![];
    for (x, y) in pts {
        let w: Vec<u64> = if v.len() == 2 { vec![x.0, y.0] } else { vec![x.0, x.1, y.0, y.1] };
        o.push(Fm::and(v.iter().zip(w).map(|(n, k)| node_is(*n, k)).collect()));
    }
    Fm::or(o)
}

#[derive(Clone)]
struct Env {
    curve: Curve,
    cfg: Cfg,
    s1: Vec<(E, E)>,
    s2: Vec<(E, E)>,
}

macro_rules! curve_cases {
    ($f:ident, $m:ident, $eng:ident) => {
        mod $f {
            use super::*;
            use pairing::$m::{$eng, Fq, Fq2, G1Affine, G2Affine};
            type D1 = G1PointData<Fq>;
            type D2 = G2PointData<Fq>;

            fn fq(n: Id) -> Fq {
                Fq::from_small(n)
            }
            pub fn g1(v: &[Id]) -> G1Affine {
                G1Affine::verif_new(fq(v[0]), fq(v[1]), false)
            }
            pub fn g2(v: &[Id]) -> G2Affine {
                G2Affine::verif_new(Fq2 { c0: fq(v[0]), c1: fq(v[1]) }, Fq2 { c0: fq(v[2]), c1: fq(v[3]) }, false)
            }
            pub fn p1(p: &G1Affine) -> (Vec<Id>, bool) {
                let (x, y, i) = p.verif_parts();
                (vec![x.small(), y.small()], i)
            }
            pub fn p2(p: &G2Affine) -> (Vec<Id>, bool) {
                let (x, y, i) = p.verif_parts();
                (vec![x.c0.small(), x.c1.small(), y.c0.small(), y.c1.small()], i)
            }
            /// the words of an encoding, read back as field elements
            fn words(mut b: &[u8]) -> Vec<Id> {
                use ff::{PrimeField, PrimeFieldRepr};
                let mut out = vec![];
                while !b.is_empty() {
                    let mut r = <Fq as PrimeField>::Repr::default();
                    r.read_le(&mut b).expect("whole words");
                    out.push(Fq::from_repr(r).expect("canonical").small());
                }
                out
            }
            fn encode(v: &[Id]) -> Vec<u8> {
                use ff::{PrimeField, PrimeFieldRepr};
                let mut out = vec![];
                for n in v {
                    fq(*n).into_repr().write_le(&mut out).unwrap();
                }
                out
            }
            fn vars(k: usize, pre: &str) -> Vec<Id> {
                let names = if k == 2 { vec!["x", "y"] } else { vec!["x0", "x1", "y0", "y1"] };
                names.iter().map(|n| var(&format!("{}{}", pre, n))).collect()
            }
            fn all_zero(v: &[Id]) -> Fm {
                Fm::and(v.iter().map(|n| zf(*n)).collect())
            }
            fn all_same(a: &[Id], b: &[Id]) -> Fm {
                Fm::and(a.iter().zip(b).map(|(x, y)| same(*x, *y)).collect())
            }
            /// the result of decoding coordinates v: right verdict, right point
            fn judge(what: &str, v: &[Id], valid: Fm, r: Result<(Vec<Id>, bool), String>) {
                match r {
                    Err(_) => {
                        check(format!("{}: valid data is accepted", what), Fm::or(vec![all_zero(v), valid]).not());
                        cover(format!("{}: refused", what), Fm::bool(true));
                    }
                    Ok((w, inf)) => {
                        check(format!("{}: only valid points are accepted", what), Fm::or(vec![all_zero(v), valid]));
                        if inf {
                            check(format!("{}: infinity only for zero coordinates", what), all_zero(v));
                            cover(format!("{}: infinity", what), Fm::bool(true));
                        } else {
                            check(format!("{}: zero coordinates mean infinity", what), all_zero(v).not());
                            check(format!("{}: same coordinates", what), all_same(&w, v));
                            cover(format!("{}: accepted", what), Fm::bool(true));
                        }
                    }
                }
            }
            fn constant(e: &Env, ext: bool, i: usize) -> Vec<Id> {
                let pts = if ext { &e.s2 } else { &e.s1 };
                let (x, y) = pts[i % pts.len()];
                if ext {
                    vec![x.0, x.1, y.0, y.1].into_iter().map(small::konst).collect()
                } else {
                    vec![x.0, y.0].into_iter().map(small::konst).collect()
                }
            }

            pub fn point(e: Env, ext: bool) -> Vec<Case> {
                let tag = format!("{}/{}/p{}r{}", stringify!($m), if ext { "G2" } else { "G1" }, e.cfg.p, if ext { e.cfg.r2 } else { e.cfg.r1 });
                let bounds = format!("every coordinate tuple over GF({}{}), subgroup of order {}", e.cfg.p, if ext { "^2" } else { "" }, if ext { e.cfg.r2 } else { e.cfg.r1 });
                let k = if ext { 4 } else { 2 };
                let mut out = vec![];
                let e1 = e.clone();
                out.push(case(format!("{}/from-point", tag), bounds.clone(), move || {
                    small::configure(e1.cfg);
                    let v = vars(k, "");
                    let valid = member(&v, if ext { &e1.s2 } else { &e1.s1 });
                    let r = if ext {
                        let d = D2::from(g2(&v));
                        attempt(|| Into::<G2Affine>::into(d)).map(|q| p2(&q))
                    } else {
                        let d = D1::from(g1(&v));
                        attempt(|| Into::<G1Affine>::into(d)).map(|q| p1(&q))
                    };
                    judge("point", &v, valid, r);
                }));
                let e1 = e.clone();
                out.push(case(format!("{}/from-bytes", tag), bounds.clone(), move || {
                    small::configure(e1.cfg);
                    let v = vars(k, "");
                    let valid = member(&v, if ext { &e1.s2 } else { &e1.s1 });
                    let b = encode(&v);
                    let r = if ext {
                        let d = D2::try_from_slice(&b).expect("data");
                        attempt(|| Into::<G2Affine>::into(d)).map(|q| p2(&q))
                    } else {
                        let d = D1::try_from_slice(&b).expect("data");
                        attempt(|| Into::<G1Affine>::into(d)).map(|q| p1(&q))
                    };
                    judge("bytes", &v, valid, r);
                }));
                let e1 = e.clone();
                out.push(case(format!("{}/coordinates", tag), bounds.clone(), move || {
                    small::configure(e1.cfg);
                    let v = vars(k, "");
                    let flag = decide(Cond::Zero(var("finite")));
                    let b = if ext {
                        let (x, y, _) = g2(&v).verif_parts();
                        D2::from(G2Affine::verif_new(x, y, flag)).try_to_vec().unwrap()
                    } else {
                        let (x, y, _) = g1(&v).verif_parts();
                        D1::from(G1Affine::verif_new(x, y, flag)).try_to_vec().unwrap()
                    };
                    let w = words(&b);
                    check("number of coordinates", Fm::bool(w.len() == k));
                    if flag {
                        check("infinity has zero coordinates", all_zero(&w));
                    } else {
                        check("the coordinates in order", all_same(&w, &v));
                    }
                    cover(if flag { "infinity" } else { "finite" }, Fm::bool(true));
                }));
                let e1 = e.clone();
                out.push(case(format!("{}/infinity", tag), "the point at infinity", move || {
                    small::configure(e1.cfg);
                    let ok = if ext {
                        attempt(|| Into::<G2Affine>::into(D2::from(G2Affine::zero()))).map(|q| q.is_zero())
                    } else {
                        attempt(|| Into::<G1Affine>::into(D1::from(G1Affine::zero()))).map(|q| q.is_zero())
                    };
                    check("infinity converts to itself", Fm::bool(ok == Ok(true)));
                }));
                out
            }

            /// one component arbitrary, the others distinct constants
            pub fn proof(e: Env) -> Vec<Case> {
                (0..3usize)
                    .map(|pos| {
                        let e = e.clone();
                        case(
                            format!("{}/proof/{}/p{}", stringify!($m), ["a", "b", "c"][pos], e.cfg.p),
                            format!("proofs with an arbitrary coordinate tuple over GF({}) at {}", e.cfg.p, ["a", "b", "c"][pos]),
                            move || {
                                small::configure(e.cfg);
                                let mut comp: Vec<Vec<Id>> = (0..3).map(|i| constant(&e, i == 1, 2 * i + 1)).collect();
                                comp[pos] = vars(if pos == 1 { 4 } else { 2 }, "");
                                let valid = member(&comp[pos], if pos == 1 { &e.s2 } else { &e.s1 });
                                let p = Proof::<$eng>(bellman::groth16::Proof { a: g1(&comp[0]), b: g2(&comp[1]), c: g1(&comp[2]) });
                                let d = p.into_data();
                                let r = attempt(|| Proof::<$eng>::from_data(&d));
                                let r = r.map(|q| {
                                    let parts = [p1(&q.0.a), p2(&q.0.b), p1(&q.0.c)];
                                    for i in 0..3 {
                                        if i != pos {
                                            check(format!("component {} unchanged", i), if parts[i].1 { Fm::bool(false) } else { all_same(&parts[i].0, &comp[i]) });
                                        }
                                    }
                                    parts[pos].clone()
                                });
                                judge("proof", &comp[pos], valid, r);
                            },
                        )
                    })
                    .collect()
            }
            /// writing a proof and reading it back: one component arbitrary, the others constants
            pub fn proof_bytes(e: Env) -> Vec<Case> {
                (0..3usize)
                    .map(|pos| {
                        let e = e.clone();
                        case(
                            format!("{}/proof bytes/{}/p{}", stringify!($m), ["a", "b", "c"][pos], e.cfg.p),
                            format!("proofs with an arbitrary finite subgroup point over GF({}) at {}", e.cfg.p, ["a", "b", "c"][pos]),
                            move || {
                                small::configure(e.cfg);
                                let mut comp: Vec<Vec<Id>> = (0..3).map(|i| constant(&e, i == 1, 2 * i + 1)).collect();
                                comp[pos] = vars(if pos == 1 { 4 } else { 2 }, "");
                                assume(member(&comp[pos], if pos == 1 { &e.s2 } else { &e.s1 }));
                                let p = Proof::<$eng>(bellman::groth16::Proof { a: g1(&comp[0]), b: g2(&comp[1]), c: g1(&comp[2]) });
                                let mut b = vec![];
                                p.write(&mut b).expect("write");
                                let n = b.len();
                                let cut = decide(Cond::Zero(var("whole")));
                                let r = Proof::<$eng>::read(&b[..if cut { n - 1 } else { n }]);
                                check("a truncated proof is an error", Fm::bool(r.is_err() == cut));
                                if let Ok(q) = r {
                                    let parts = [p1(&q.0.a), p2(&q.0.b), p1(&q.0.c)];
                                    for i in 0..3 {
                                        check(format!("component {} unchanged", i), if parts[i].1 { Fm::bool(false) } else { all_same(&parts[i].0, &comp[i]) });
                                    }
                                    cover("read back", Fm::bool(true));
                                }
                            },
                        )
                    })
                    .collect()
            }
            pub fn key(e: Env, nic: usize) -> Vec<Case> {
                (0..4 + nic)
                    .map(|pos| {
                        let e = e.clone();
                        case(
                            format!("{}/key ic={}/{}/p{}", stringify!($m), nic, pos, e.cfg.p),
                            format!("keys with {} input points and an arbitrary coordinate tuple over GF({}) at position {}", nic, e.cfg.p, pos),
                            move || {
                                small::configure(e.cfg);
                                let ext = |i: usize| (1..4).contains(&i);
                                let mut comp: Vec<Vec<Id>> = (0..4 + nic).map(|i| constant(&e, ext(i), i)).collect();
                                comp[pos] = vars(if ext(pos) { 4 } else { 2 }, "");
                                let valid = member(&comp[pos], if ext(pos) { &e.s2 } else { &e.s1 });
                                let k = TruncatedVerifyingKey::<$eng> {
                                    alpha_g1: g1(&comp[0]),
                                    beta_g2: g2(&comp[1]),
                                    gamma_g2: g2(&comp[2]),
                                    delta_g2: g2(&comp[3]),
                                    ic: comp[4..].iter().map(|c| g1(c)).collect(),
                                };
                                let d: TruncatedVerifyingKeyData<Fq> = k.into_data();
                                let r = attempt(|| TruncatedVerifyingKey::<$eng>::from_data(&d));
                                let r = r.map(|q| {
                                    let mut parts = vec![p1(&q.alpha_g1), p2(&q.beta_g2), p2(&q.gamma_g2), p2(&q.delta_g2)];
                                    parts.extend(q.ic.iter().map(|x| p1(x)));
                                    check("number of input points", Fm::bool(parts.len() == 4 + nic));
                                    parts.resize(4 + nic, (vec![], false));
                                    for i in 0..4 + nic {
                                        if i != pos {
                                            check(format!("component {} unchanged", i), if parts[i].1 { Fm::bool(false) } else { all_same(&parts[i].0, &comp[i]) });
                                        }
                                    }
                                    parts[pos].clone()
                                });
                                judge("key", &comp[pos], valid, r);
                            },
                        )
                    })
                    .collect()
            }
        }
    };
}
curve_cases!(bn, bn256, Bn256);
curve_cases!(bls, bls12_381, Bls12);

fn env(curve: Curve, p: u64, r1: u64, r2: u64) -> Env {
    Env {
        curve,
        cfg: Cfg { p, r1, r2 },
        s1: if r1 == 0 { vec![] } else { subgroup(curve, false, p, r1) },
        s2: if r2 == 0 { vec![] } else { subgroup(curve, true, p, r2) },
    }
}

fn cases(t: Tier) -> Vec<Case> {
    let mut out = vec![];
    let mut one = vec![(Curve::Bn, 7, 13, 13), (Curve::Bls, 19, 7, 0), (Curve::Bls, 7, 0, 7)];
    if t == Tier::Thorough {
        one.extend([(Curve::Bn, 19, 13, 7), (Curve::Bn, 31, 43, 0), (Curve::Bls, 11, 3, 0), (Curve::Bls, 79, 31, 0), (Curve::Bls, 31, 0, 7)]);
    }
    for (c, p, r1, r2) in one {
        let e = env(c, p, r1, r2);
        for ext in [false, true] {
            if (if ext { r2 } else { r1 }) == 0 {
                continue;
            }
            out.extend(match e.curve {
                Curve::Bn => bn::point(e.clone(), ext),
                Curve::Bls => bls::point(e.clone(), ext),
            });
        }
    }
    let (a, b) = (env(Curve::Bn, 7, 13, 13), env(Curve::Bls, 7, 3, 7));
    out.extend(bn::proof(a.clone()));
    out.extend(bls::proof(b.clone()));
    out.extend(bn::proof_bytes(a.clone()));
    out.extend(bls::proof_bytes(b.clone()));
    for n in if t == Tier::Quick { vec![0, 2] } else { vec![0, 1, 2, 3, 4] } {
        out.extend(bn::key(a.clone(), n));
        out.extend(bls::key(b.clone(), n));
    }
    out
}

fn main() {
    symcore::cli(vec![Prop {
        id: "C28",
        functions: &[
            "helpers/groth16/mod.rs: is_on_curve, From/Into between G1PointData/G2PointData and the affine points of bn256 and bls12_381, the B coefficients",
            "helpers/groth16/prover.rs: Proof::{into_data,from_data,write,read} for both curves",
            "helpers/groth16/verifier.rs: TruncatedVerifyingKey::{into_data,from_data} for both curves",
            "helpers/groth16/near.rs: Borsh form of point data (to build and to inspect it)",
        ],
        outside: "the base fields are small; the real curve coefficients enter as the fractions they are; the group order enters as the order of the small prime-order subgroup; longer keys; two components invalid at once",
        cases: Box::new(cases),
    },
    Prop {
        id: "C26",
        functions: &[
            "helpers/groth16/ethereum.rs: generate_sol_data, and every function of the Solidity contract it writes (verifyProof, verifyingKey, pairing, plus, scalar_mul, negate)",
            "helpers/groth16/verifier.rs: TruncatedVerifyingKey::into_data; prover.rs: Proof::into_data; mod.rs: From<G1Affine/G2Affine> for point data; native/num.rs: the decimal form",
        ],
        outside: "the precompiles act on discrete logarithms modulo a small prime; gas is unlimited; keys with one input point (their contract has an array of length 0), with a G2 point at infinity, or with more points than the bound; the Solidity compiler",
        cases: Box::new(c26::cases),
    }])
}
