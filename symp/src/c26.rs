//! C26: the Solidity verifier written for a key accepts exactly the proofs the key's equation admits.  The contract text
//! comes from the real generator, the eight proof words from the real proof data; both are given points whose
//! coordinates are pairwise different numbers, so every literal and word is recognised as the coordinate it came from.
use crate::sol::{self, dec, Pnt, Vm, World, Q, R, W};
use crate::zf;
use fawkes_crypto::helpers::groth16::{ethereum::generate_sol_data, prover::Proof, verifier::TruncatedVerifyingKey};
use ff::PrimeField;
use num::bigint::BigUint;
use num::{One, Zero};
use pairing::bn256::{Bn256, Fq, Fq2, G1Affine, G2Affine};
use symcore::driver::{case, Case, Tier};
use symcore::engine::*;

#[derive(Clone, Copy, PartialEq)]
enum Size {
    Full,
    Mixed,
}
/// the coordinate of coordinate number i of a case: pairwise different numbers of the base field
fn token(i: usize, s: Size) -> BigUint {
    let full = dec(Q) * BigUint::from(3 * i as u64 + 1) / BigUint::from(1009u32) + BigUint::from(7 * i as u64 + 1_000_003);
    match s {
        Size::Full => full,
        // lengths from 7 digits up; some with trailing zeros
        Size::Mixed => match i % 3 {
            0 => BigUint::from(1_000_000u64 + 17 * i as u64),
            1 => BigUint::from(10u32).pow(60) * BigUint::from(i as u64 + 1),
            _ => dec(Q) - BigUint::from(i as u64 + 1),
        },
    }
}
trait Pow {
    fn pow(self, e: u32) -> BigUint;
}
impl Pow for BigUint {
    fn pow(self, e: u32) -> BigUint {
        (0..e).fold(BigUint::one(), |a, _| a * &self)
    }
}
struct Toks(usize, Size);
impl Toks {
    fn next(&mut self) -> BigUint {
        self.0 += 1;
        token(self.0, self.1)
    }
}
fn fq(v: &BigUint) -> Fq {
    Fq::from_str(&v.to_string()).expect("a number of the base field")
}
fn g1(c: &[BigUint]) -> G1Affine {
    let inf = c.iter().all(|x| x.is_zero());
    if inf {
        <G1Affine as pairing::CurveAffine>::zero()
    } else {
        G1Affine::verif_new(fq(&c[0]), fq(&c[1]), false)
    }
}
/// c = (x1, x0, y1, y0): the order of the precompile
fn g2(c: &[BigUint]) -> G2Affine {
    G2Affine::verif_new(Fq2 { c0: fq(&c[1]), c1: fq(&c[0]) }, Fq2 { c0: fq(&c[3]), c1: fq(&c[2]) }, false)
}
fn flat(v: &serde_json::Value, out: &mut Vec<BigUint>) {
    match v {
        serde_json::Value::String(s) => out.push(s.parse().unwrap_or_else(|_| abort_unknown("proof data is not made of numbers".into()))),
        serde_json::Value::Array(a) => a.iter().for_each(|x| flat(x, out)),
        _ => abort_unknown("proof data of an unknown form".into()),
    }
}

/// `inf`: which of alpha, ic_0, ... is the point at infinity
fn one(nic: usize, n: u64, inf: Option<usize>, size: Size) -> Case {
    case(
        format!(
            "ic={}/n{}{}{}",
            nic,
            n,
            match inf {
                None => "".into(),
                Some(0) => "/alpha=0".into(),
                Some(i) => format!("/ic{}=0", i - 1),
            },
            if size == Size::Mixed { "/coordinates of mixed length" } else { "" }
        ),
        format!("keys with {} input points{}, arbitrary 256-bit proof words and inputs, exponents modulo {}", nic, if inf.is_some() { ", one of them infinity" } else { "" }, n),
        move || {
            let var = |s: &str| with(|c| c.var(s, n));
            let mut tk = Toks(0, size);
            let mut w = World::new(n);
            let (q, r, top) = (dec(Q), dec(R), BigUint::one() << 256);
            // the key
            let mut key1 = |w: &mut World, name: String, inf: bool| -> (Vec<BigUint>, Id) {
                if inf {
                    return (vec![BigUint::zero(); 2], with(|c| c.konst(0, n)));
                }
                let e = var(&name);
                assume(zf(e).not());
                let c = vec![tk.next(), tk.next()];
                let words = c
                    .iter()
                    .zip(["x", "y"])
                    .map(|(v, s)| {
                        let i = w.sym(&format!("{}.{}", name, s), BigUint::one(), dec(Q), None, None);
                        w.literals.insert(v.clone(), i);
                        W::Sym(i)
                    })
                    .collect();
                w.g1.push(Pnt { words, exp: e, valid: None });
                (c, e)
            };
            let (alpha, ea) = key1(&mut w, "alpha".into(), inf == Some(0));
            let ics: Vec<_> = (0..nic).map(|i| key1(&mut w, format!("ic{}", i), inf == Some(i + 1))).collect();
            let mut key2 = |w: &mut World, name: &str| -> (Vec<BigUint>, Id) {
                let e = var(name);
                assume(zf(e).not());
                let c: Vec<_> = (0..4).map(|_| tk.next()).collect();
                let words = c
                    .iter()
                    .zip(["x1", "x0", "y1", "y0"])
                    .map(|(v, s)| {
                        let i = w.sym(&format!("{}.{}", name, s), BigUint::zero(), dec(Q), None, None);
                        w.literals.insert(v.clone(), i);
                        W::Sym(i)
                    })
                    .collect();
                w.g2.push(Pnt { words, exp: e, valid: None });
                (c, e)
            };
            let (beta, eb) = key2(&mut w, "beta");
            let (gamma, eg) = key2(&mut w, "gamma");
            let (delta, ed) = key2(&mut w, "delta");
            let vk = TruncatedVerifyingKey::<Bn256> { alpha_g1: g1(&alpha), beta_g2: g2(&beta), gamma_g2: g2(&gamma), delta_g2: g2(&delta), ic: ics.iter().map(|x| g1(&x.0)).collect() };
            let data = vk.into_data();
            let text = match attempt(|| generate_sol_data(&data)) {
                Ok(t) => t,
                Err(m) => return check(format!("a contract is generated ({})", m), Fm::bool(false)),
            };
            check("no placeholder is left in the contract", Fm::bool(!text.contains("<%")));
            if text.contains("<%") {
                return;
            }
            // the proof: which component each of the eight words is
            let pt: Vec<BigUint> = (0..8).map(|_| tk.next()).collect();
            let names = ["a.x", "a.y", "b.x1", "b.x0", "b.y1", "b.y0", "c.x", "c.y"];
            let pd = Proof::<Bn256>(bellman::groth16::Proof { a: g1(&pt[0..2]), b: g2(&pt[2..6]), c: g1(&pt[6..8]) }).into_data();
            let pd = serde_json::to_value(&pd).unwrap();
            let mut got = vec![];
            for f in ["a", "b", "c"] {
                flat(&pd[f], &mut got);
            }
            check("proof data has eight words", Fm::bool(got.len() == 8));
            let order: Option<Vec<usize>> = got.iter().map(|v| pt.iter().position(|x| x == v)).collect();
            check("proof data consists of the proof's coordinates", Fm::bool(order.is_some()));
            let order = match order {
                Some(o) if o.len() == 8 => o,
                _ => return,
            };
            let mut zs = vec![];
            let mut ranges = vec![];
            let mut syms = vec![];
            for nm in names {
                let z = with(|c| c.var(&format!("{}=0", nm), 2));
                let lt = with(|c| c.var(&format!("{}<{:x}", nm, q), 2));
                assume(Fm::implies(zf(z), zf(lt)));
                zs.push(zf(z));
                ranges.push(zf(lt));
                syms.push(w.sym(nm, BigUint::zero(), top.clone(), Some(z), None));
            }
            let words: Vec<W> = syms.iter().map(|s| W::Sym(*s)).collect();
            let mut point = |w: &mut World, name: &str, lo: usize, hi: usize| -> (Id, Fm) {
                let e = var(name);
                let v = with(|c| c.var(&format!("{} valid", name), 2));
                let ok = zf(v).not();
                let inf = Fm::and(zs[lo..hi].to_vec());
                assume(Fm::iff(inf.clone(), Fm::and(vec![ok.clone(), zf(e)])));
                if hi - lo == 2 {
                    // no point of the curve has exactly one zero coordinate
                    assume(Fm::implies(Fm::or(zs[lo..hi].to_vec()), Fm::or(vec![inf, ok.clone().not()])));
                }
                let p = Pnt { words: words[lo..hi].to_vec(), exp: e, valid: Some(v) };
                if hi - lo == 2 {
                    w.g1.push(p)
                } else {
                    w.g2.push(p)
                }
                (e, ok)
            };
            let (pa, va) = point(&mut w, "a", 0, 2);
            let (pb, vb) = point(&mut w, "b", 2, 6);
            let (pc, vc) = point(&mut w, "c", 6, 8);
            // the inputs
            let mut ins = vec![];
            let mut lin = ics[0].1;
            for i in 0..nic - 1 {
                let nm = format!("in{}", i);
                let s = var(&nm);
                let z = with(|c| c.var(&format!("{}=0", nm), 2));
                let lt = with(|c| c.var(&format!("{}<{:x}", nm, r), 2));
                assume(Fm::implies(zf(z), Fm::and(vec![zf(s), zf(lt)])));
                ranges.push(zf(lt));
                ins.push(W::Sym(w.sym(&nm, BigUint::zero(), top.clone(), Some(z), Some(s))));
                lin = with(|c| {
                    let m = c.mul(s, ics[i + 1].1);
                    c.add(lin, m)
                });
            }
            let eq = with(|c| {
                let (ab, xy, l, d) = (c.mul(pa, pb), c.mul(ea, eb), c.mul(lin, eg), c.mul(pc, ed));
                let s = c.sub(xy, ab);
                let s = c.add(s, l);
                c.add(s, d)
            });
            let inrange = Fm::and(ranges);
            let good = Fm::and(vec![inrange.clone(), va, vb, vc, zf(eq)]);

            let units = sol::parse(&text);
            let mut vm = Vm::new(&units, w);
            let p: Vec<W> = order.iter().map(|i| words[*i].clone()).collect();
            let acc = match vm.entry("verifyProof", &[p, ins]) {
                Err(m) => return check(format!("verifyProof takes eight proof words and {} inputs ({})", nic - 1, m), Fm::bool(false)),
                Ok(Ok(v)) => match v {
                    W::K(x) => !x.is_zero(),
                    _ => abort_unknown("a symbolic answer".into()),
                },
                Ok(Err(_)) => false,
            };
            if acc {
                check("an accepted proof satisfies the key's equation, all words in range", good);
                cover("accepted", Fm::bool(true));
            } else {
                check("a valid proof is accepted", good.not());
                cover("rejected", inrange);
                cover("some point at infinity", Fm::or(zs));
            }
        },
    )
}

pub fn cases(t: Tier) -> Vec<Case> {
    let mut out = vec![];
    let quick = t == Tier::Quick;
    for nic in if quick { 2..=4 } else { 2..=8 } {
        out.push(one(nic, 5, None, Size::Full));
        if !quick {
            out.push(one(nic, 7, None, Size::Full));
            out.push(one(nic, 11, None, Size::Mixed));
        }
    }
    out.push(one(3, 5, None, Size::Mixed));
    // more than nine and more than 255 literals
    out.push(one(12, 3, None, Size::Full));
    for i in 0..if quick { 4 } else { 6 } {
        out.push(one(if quick { 3 } else { 5 }, 5, Some(i), Size::Full));
    }
    out
}
