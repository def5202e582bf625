//! C10 Poseidon, C11 Merkle trees, C12 EdDSA
use crate::curve::*;
use crate::driver::*;
use crate::engine::*;
use crate::field::S;
use crate::gadget::*;
use crate::reccs::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::eddsaposeidon::c_eddsaposeidon_verify;
use fawkes_crypto::circuit::poseidon::*;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::eddsaposeidon::*;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::*;
use std::marker::PhantomData;
use typenum::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pk {
    /// round constants and matrix are symbolic
    Sym,
    /// fixed pseudo-random constants
    Fix,
}
pub fn params<const P: u64>(t: usize, f: usize, p: usize, k: Pk) -> PoseidonParams<S<P>> {
    let mut x = 12345u64 + (t * 100 + f * 10 + p) as u64;
    let mut g = |n: String| -> Num<S<P>> {
        match k {
            Pk::Sym => Num(S::var(&n)),
            Pk::Fix => {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                Num(S::k((x >> 33) % (P - 1) + 1))
            }
        }
    };
    let c = (0..f + p).map(|i| g(format!("c{}", i))).collect();
    let m = (0..t).map(|i| (0..t).map(|j| g(format!("m{}_{}", i, j))).collect()).collect();
    PoseidonParams { c, m, t, f, p }
}
/// the permutation as published: add round constant, x^5 on all (full rounds) or the first
/// (partial rounds) element, multiply by the matrix; half of the full rounds first
pub fn reference<const P: u64>(inp: &[S<P>], q: &PoseidonParams<S<P>>) -> S<P> {
    let mut st: Vec<S<P>> = (0..q.t).map(|i| if i < inp.len() { inp[i] } else { S::k(0) }).collect();
    for r in 0..q.f + q.p {
        for e in st.iter_mut() {
            *e = e.a(&q.c[r].0);
        }
        let full = r < q.f / 2 || r >= q.f / 2 + q.p;
        for (j, e) in st.iter_mut().enumerate() {
            if full || j == 0 {
                *e = e.sq().sq().m(e);
            }
        }
        st = (0..q.t)
            .map(|i| {
                let mut a = S::k(0);
                for j in 0..q.t {
                    a = a.a(&q.m[i][j].0.m(&st[j]));
                }
                a
            })
            .collect();
    }
    st[0]
}

fn native_case<const P: u64>(t: usize, f: usize, p: usize, n: usize, k: Pk) {
    let q = params::<P>(t, f, p, k);
    let x = vars::<P>("x", n);
    let v: Vec<Num<S<P>>> = x.iter().map(|s| Num(*s)).collect();
    match attempt(|| poseidon(&v, &q)) {
        Err(e) => check(format!("poseidon panics: {}", e), Fm::F),
        Ok(o) => check("native poseidon is the reference permutation", o.0.eq_fm(&reference(&x, &q))),
    }
    if n < t {
        let seed = b"some salt";
        let mut y = x.clone();
        y.push(Num::<S<P>>::from_seed(seed).0);
        match attempt(|| poseidon_with_salt(&v, seed, &q)) {
            Err(e) => check(format!("poseidon_with_salt panics: {}", e), Fm::F),
            Ok(o) => check("salted: the salt is the last input", o.0.eq_fm(&reference(&y, &q))),
        }
    } else {
        check("salted: refuses t inputs", Fm::bool(attempt(|| poseidon_with_salt(&v, b"s", &q)).is_err()));
    }
    cover("end", Fm::T);
}
fn native_refuse<const P: u64>(t: usize) {
    let q = params::<P>(t, 2, 1, Pk::Fix);
    let v: Vec<Num<S<P>>> = vars::<P>("x", t + 1).iter().map(|s| Num(*s)).collect();
    check("refuses more than t inputs", Fm::bool(attempt(|| poseidon(&v, &q)).is_err()));
    check("refuses no input", Fm::bool(attempt(|| poseidon(&[], &q)).is_err()));
    check("salted: refuses no input", Fm::bool(attempt(|| poseidon_with_salt(&[], b"s", &q)).is_err()));
    let cs = RecCS::<P>::new();
    let w: Vec<C<P>> = (0..t + 1).map(|_| C::alloc(&cs, None)).collect();
    check("circuit refuses more than t inputs", Fm::bool(attempt(|| c_poseidon(&w, &q)).is_err()));
    check("circuit, salted: refuses t inputs", Fm::bool(attempt(|| c_poseidon_with_salt(&w[..t], b"s", &q)).is_err()));
    check("circuit refuses no input", Fm::bool(attempt(|| c_poseidon::<RecCS<P>>(&[], &q)).is_err()));
    cover("end", Fm::T);
}
/// mask: inputs that are constants
fn circuit_case<const P: u64>(t: usize, f: usize, p: usize, n: usize, mask: u32, salt: bool) {
    let q = params::<P>(t, f, p, Pk::Fix);
    let mut x = vars::<P>("x", n);
    for i in 0..n {
        if mask >> i & 1 == 1 {
            // constants are pinned: one path per value
            assume(Fm::or(vec![x[i].eqk_fm(0), x[i].eqk_fm(1), x[i].eqk_fm(P - 1), x[i].eqk_fm(5)]));
            x[i] = S::k(decide_value(x[i].0));
        }
    }
    let ins: Vec<S<P>> = (0..n).filter(|i| mask >> i & 1 == 0).map(|i| x[i]).collect();
    let mut all = x.clone();
    if salt {
        all.push(Num::<S<P>>::from_seed(b"pepper").0);
    }
    Gadget::new("poseidon", &ins).run(
        |cs, w| {
            let mut it = w.iter();
            let a: Vec<C<P>> =
                (0..n).map(|i| if mask >> i & 1 == 1 { C::from_const(cs, &Num(x[i])) } else { it.next().unwrap().clone() }).collect();
            vec![if salt { c_poseidon_with_salt(&a, b"pepper", &q) } else { c_poseidon(&a, &q) }]
        },
        |o| o[0].eq_fm(&reference(&all, &q)),
    );
}

fn c10(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    let mut shapes = vec![(2usize, 2usize, 1usize), (3, 2, 2), (2, 4, 3), (3, 8, 53), (4, 8, 54), (2, 3, 1), (2, 5, 2), (3, 1, 2), (2, 0, 3), (2, 4, 0)];
    shapes.extend(vec![(5, 8, 55), (6, 8, 56), (7, 8, 57), (9, 8, 60), (3, 9, 20), (12, 8, 60), (3, 64, 130), (2, 10, 300)]);
    if th {
        shapes.extend(vec![(16, 8, 64), (24, 8, 60), (3, 8, 1100)]);
    }
    for (t, f, p) in shapes {
        for n in 1..=t {
            let b = format!("GF(13), t={} f={} p={}, {} inputs, all values", t, f, p, n);
            v.push(case(format!("p13/native/t{}f{}p{}n{}", t, f, p, n), b.clone(), move || native_case::<13>(t, f, p, n, Pk::Fix)));
            v.push(case(format!("p13/circuit/t{}f{}p{}n{}", t, f, p, n), format!("{}, all wire assignments", b), move || circuit_case::<13>(t, f, p, n, 0, false)));
            if n < t {
                v.push(case(format!("p13/circuit_salt/t{}f{}p{}n{}", t, f, p, n), format!("{}, all wire assignments", b), move || circuit_case::<13>(t, f, p, n, 0, true)));
            }
        }
    }
    for t in 2..4usize {
        for n in 1..=t {
            v.push(case(format!("p13/native_sym/t{}n{}", t, n), "GF(13), two full rounds and one partial round, every parameter set", move || native_case::<13>(t, 2, 1, n, Pk::Sym)));
        }
        v.push(case(format!("p13/refuse/t{}", t), "wrong numbers of inputs", move || native_refuse::<13>(t)));
    }
    v.push(case("p17/native_sym", "GF(17), t=3 f=4 p=2, every parameter set", || native_case::<17>(3, 4, 2, 3, Pk::Sym)));
    for mask in 1..8u32 {
        v.push(case(format!("p13/circuit_const{}", mask), "GF(13), t=3 f=2 p=1, some inputs constant (0, 1, 5, -1), all values of the others", move || circuit_case::<13>(3, 2, 1, 3, mask, false)));
    }
    v
}

// ---- Merkle ---------------------------------------------------------------------------------
fn bits_split<const P: u64>(n: usize) -> Vec<bool> {
    (0..n)
        .map(|i| {
            let b = S::<P>::var(&format!("path{}", i));
            assume(b.is_bit_fm());
            decide_value(b.0) == 1
        })
        .collect()
}
fn ref_root<const P: u64>(leaf: S<P>, sib: &[S<P>], path: &[bool], q: &PoseidonParams<S<P>>) -> S<P> {
    let mut r = leaf;
    for (s, b) in sib.iter().zip(path.iter()) {
        r = if *b { reference(&[*s, r], q) } else { reference(&[r, *s], q) };
    }
    r
}
fn merkle_native<const P: u64, L: Unsigned>(t: usize, f: usize, p: usize, fixed: Option<u64>) {
    let q = params::<P>(t, f, p, Pk::Fix);
    let n = L::USIZE;
    let leaf = S::<P>::var("leaf");
    let sib = vars::<P>("s", n);
    let path = match fixed {
        Some(m) => (0..n).map(|i| m >> (i % 64) & 1 == 1).collect(),
        None => bits_split::<P>(n),
    };
    let pr = MerkleProof::<S<P>, L> {
        sibling: SizedVec(sib.iter().map(|x| Num(*x)).collect(), PhantomData),
        path: SizedVec(path.clone(), PhantomData),
    };
    match attempt(|| poseidon_merkle_proof_root(Num(leaf), &pr, &q)) {
        Err(e) => check(format!("merkle proof root panics: {}", e), Fm::F),
        Ok(o) => check("merkle proof root", o.0.eq_fm(&ref_root(leaf, &sib, &path, &q))),
    }
    cover("end", Fm::T);
}
fn merkle_circuit<const P: u64, L: Unsigned>(t: usize, f: usize, p: usize, fixed: Option<u64>, konst: bool) {
    let q = params::<P>(t, f, p, Pk::Fix);
    let n = L::USIZE;
    let leaf = S::<P>::var("leaf");
    let sib = vars::<P>("s", n);
    let path: Vec<bool> = match fixed {
        Some(m) => (0..n).map(|i| m >> (i % 64) & 1 == 1).collect(),
        None => bits_split::<P>(n),
    };
    let mut ins = vec![leaf];
    ins.extend(sib.iter().cloned());
    if !konst {
        ins.extend(path.iter().map(|b| S::k(*b as u64)));
    }
    Gadget::new("merkle proof", &ins).run(
        |cs, w| {
            let pr = CMerkleProof::<RecCS<P>, L> {
                sibling: SizedVec(w[1..1 + n].to_vec(), PhantomData),
                path: SizedVec(
                    (0..n).map(|i| if konst { CBool::from_const(cs, &path[i]) } else { CBool(w[1 + n + i].clone()) }).collect(),
                    PhantomData,
                ),
            };
            vec![c_poseidon_merkle_proof_root(&w[0], &pr, &q)]
        },
        |o| o[0].eq_fm(&ref_root(leaf, &sib, &path, &q)),
    );
}
/// path bits symbolic too
fn merkle_circuit_sym<const P: u64>() {
    let q = params::<P>(2, 0, 1, Pk::Fix);
    let leaf = S::<P>::var("leaf");
    let s = S::<P>::var("s");
    let b = S::<P>::var("b");
    Gadget::new("merkle proof", &[leaf, s, b]).given(b.is_bit_fm()).run(
        |_, w| {
            let pr = CMerkleProof::<RecCS<P>, U1> { sibling: SizedVec(vec![w[1].clone()], PhantomData), path: SizedVec(vec![CBool(w[2].clone())], PhantomData) };
            vec![c_poseidon_merkle_proof_root(&w[0], &pr, &q)]
        },
        |o| {
            Fm::and(vec![
                Fm::implies(b.eqk_fm(1), o[0].eq_fm(&reference(&[s, leaf], &q))),
                Fm::implies(b.is_zero_fm(), o[0].eq_fm(&reference(&[leaf, s], &q))),
            ])
        },
    );
}
/// levels[0] = padded leaves
fn ref_tree<const P: u64>(x: &[S<P>], q: &PoseidonParams<S<P>>) -> Vec<Vec<S<P>>> {
    let mut l = x.to_vec();
    while !l.len().is_power_of_two() {
        l.push(S::k(0));
    }
    let mut v = vec![l];
    while v.last().unwrap().len() > 1 {
        let l = v.last().unwrap();
        let n = (0..l.len() / 2).map(|i| reference(&[l[2 * i], l[2 * i + 1]], q)).collect();
        v.push(n);
    }
    v
}
fn tree_native<const P: u64>(t: usize, f: usize, p: usize, n: usize) {
    let q = params::<P>(t, f, p, Pk::Fix);
    let x = vars::<P>("x", n);
    let v: Vec<Num<S<P>>> = x.iter().map(|a| Num(*a)).collect();
    let tr = ref_tree(&x, &q);
    let root = tr.last().unwrap()[0];
    match attempt(|| poseidon_merkle_tree_root(&v, &q)) {
        Err(e) => check(format!("tree root panics: {}", e), Fm::F),
        Ok(o) => {
            check("tree root", o.0.eq_fm(&root));
            // every leaf is provable
            for i in 0..n {
                let depth = tr.len() - 1;
                let sib: Vec<Num<S<P>>> = (0..depth).map(|l| Num(tr[l][(i >> l) ^ 1])).collect();
                let path: Vec<bool> = (0..depth).map(|l| i >> l & 1 == 1).collect();
                macro_rules! d {
                    ($($k:literal $u:ty),*) => { match depth { $( $k => {
                        let pr = MerkleProof::<S<P>, $u> { sibling: SizedVec(sib, PhantomData), path: SizedVec(path, PhantomData) };
                        let r = poseidon_merkle_proof_root(v[i], &pr, &q);
                        check(format!("leaf {} proves into the root", i), r.0.eq_fm(&o.0));
                    } )* _ => {} } };
                }
                d!(1 U1, 2 U2, 3 U3, 4 U4, 5 U5);
            }
        }
    }
    cover("end", Fm::T);
}
fn tree_circuit<const P: u64>(t: usize, f: usize, p: usize, n: usize) {
    let q = params::<P>(t, f, p, Pk::Fix);
    let x = vars::<P>("x", n);
    Gadget::new("merkle tree", &x).run(
        |_, w| vec![c_poseidon_merkle_tree_root(w, &q)],
        |o| o[0].eq_fm(&ref_tree(&x, &q).last().unwrap()[0]),
    );
}
fn tree_refuse<const P: u64>() {
    let q = params::<P>(2, 2, 1, Pk::Fix);
    check("no leaves", Fm::bool(attempt(|| poseidon_merkle_tree_root::<S<P>>(&[], &q)).is_err()));
    check("no leaves, circuit", Fm::bool(attempt(|| c_poseidon_merkle_tree_root::<RecCS<P>>(&[], &q)).is_err()));
    cover("end", Fm::T);
}
fn c11(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    macro_rules! l {
        ($($u:ty, $n:literal);*) => { $(
            v.push(case(format!("p13/proof/native{}", $n), format!("GF(13), t=3 f=2 p=2, depth {}, every leaf, sibling and path", $n), || merkle_native::<13, $u>(3, 2, 2, None)));
            v.push(case(format!("p13/proof/circuit{}", $n), format!("GF(13), t=3 f=2 p=2, depth {}, every leaf, sibling, path and wire assignment", $n), || merkle_circuit::<13, $u>(3, 2, 2, None, false)));
            v.push(case(format!("p13/proof/circuit_const{}", $n), format!("as above, constant path, depth {}", $n), || merkle_circuit::<13, $u>(3, 2, 2, None, true)));
        )* };
    }
    l!(U1, 1; U2, 2; U3, 3; U5, 5);
    for m in [0u64, u64::MAX, 0xa5a5_5a5a_1234_8001] {
        v.push(case(format!("p13/proof/native_deep{:x}", m), "GF(13), t=3 f=8 p=53, depth 32, one path, every leaf and sibling", move || merkle_native::<13, U32>(3, 8, 53, Some(m))));
        v.push(case(format!("p13/proof/circuit_deep{:x}", m), "GF(13), t=3 f=2 p=3, depth 32, one path, every leaf and sibling", move || merkle_circuit::<13, U32>(3, 2, 3, Some(m), false)));
    }
    v.push(case("p13/proof/circuit_sym", "GF(13), depth 1, one partial round, path bit symbolic", merkle_circuit_sym::<13>));
    l!(U4, 4; U6, 6);
    let mut ns: Vec<usize> = (1..=18).collect();
    ns.extend(vec![31, 32, 33, 64, 65, 100, 129]);
    if th {
        ns.extend(vec![255, 256, 257]);
        l!(U7, 7; U8, 8);
    }
    for n in ns {
        v.push(case(format!("p13/tree/native{}", n), format!("GF(13), t=3 f=2 p=2, {} leaves, all values", n), move || tree_native::<13>(3, 2, 2, n)));
        v.push(case(format!("p13/tree/circuit{}", n), format!("GF(13), t=3 f=2 p=2, {} leaves, all values, all wire assignments", n), move || tree_circuit::<13>(3, 2, 2, n)));
    }
    v.push(case("p13/tree/full", "GF(13), t=3 f=8 p=53, 5 leaves, all values", || tree_native::<13>(3, 8, 53, 5)));
    v.push(case("p13/tree/refuse", "no leaves", tree_refuse::<13>));
    v
}

// ---- EdDSA ----------------------------------------------------------------------------------
fn ram<const P: u64>(r: u64, a: u64, m: u64, q: &PoseidonParams<S<P>>) -> u64 {
    let salt = Num::<S<P>>::from_seed(fawkes_crypto::constants::SEED_EDDSA_POSEIDON).0;
    reference(&[S::k(r), S::k(a), S::k(m), salt], q).as_const().unwrap()
}
/// x-coordinate -> subgroup point
fn lift(sub: &[Pt], x: u64) -> Option<Pt> {
    sub.iter().cloned().find(|p| p.0 == x)
}
fn valid<const P: u64, const Q: u64>(r: &Ref, g: Pt, s: u64, rx: u64, ax: u64, m: u64, q: &PoseidonParams<S<P>>) -> bool {
    let sub = r.sub(Q);
    match (lift(&sub, rx), lift(&sub, ax)) {
        (Some(pr), Some(pa)) => r.mul(s, g) == r.add(pr, r.mul(ram(rx, ax, m, q) % Q, pa)),
        _ => false,
    }
}
fn gpt<const P: u64, const Q: u64>(t: &Tiny<P, Q>) -> Pt {
    (t.g.x.0.as_const().unwrap(), t.g.y.0.as_const().unwrap())
}
/// the nonce: the personalised hash of the secret key followed by the message, big-endian, modulo the group order
fn nonce(sk: u64, kp: u64, m: u64, mp: u64, order: u64) -> u64 {
    let mut h = blake2_rfc::blake2s::Blake2s::with_params(32, &[], &[], b"__fawkes");
    for (v, p) in [(sk, kp), (m, mp)] {
        let bytes = ((64 - p.leading_zeros() + 7) / 8) as usize;
        h.update(&v.to_be_bytes()[8 - bytes..]);
    }
    h.finalize().as_bytes().iter().fold(0, |a, b| (a * 256 + *b as u64) % order)
}
/// every secret key, every message of `ms`: the signature verifies
fn sign<const P: u64, const Q: u64>(d: u64, ms: u64) {
    let (t, r) = tiny::<P, Q>(d);
    let q = params::<P>(4, 2, 1, Pk::Fix);
    let g = gpt(&t);
    let sk = S::<Q>::var("sk");
    let m = S::<P>::var("m");
    assume(m.lt_fm(ms));
    let (kv, mv) = (decide_value(sk.0), decide_value(m.0));
    match attempt(|| eddsaposeidon_sign(Num(S::<Q>::k(kv)), Num(S::k(mv)), &q, &t)) {
        Err(e) => check(format!("sign panics: {}", e), Fm::F),
        Ok((s, rx)) => {
            let a = r.mul(kv, g).0;
            let (sv, rv) = (s.0.as_const().unwrap(), rx.0.as_const().unwrap());
            let rho = nonce(kv, Q, mv, P, Q);
            check("the nonce is the hash of the secret key and the message", Fm::bool(rv == r.mul(rho, g).0));
            check("the response is the one for that nonce", Fm::bool(sv == (rho + ram(rv, a, mv, &q) % Q * kv) % Q));
            check("the signature satisfies the verification equation", Fm::bool(valid::<P, Q>(&r, g, sv, rv, a, mv, &q)));
            match attempt(|| eddsaposeidon_verify(s, rx, Num(S::k(a)), Num(S::k(mv)), &q, &t)) {
                Err(e) => check(format!("verify panics: {}", e), Fm::F),
                Ok(b) => check("the signature verifies", Fm::bool(b)),
            }
        }
    }
    cover("end", Fm::T);
}
/// verify accepts exactly the solutions of s G = R + H(R,A,M) A with R, A in the subgroup
fn verify<const P: u64, const Q: u64>(d: u64, rs: Vec<u64>, axs: Vec<u64>) {
    let (t, r) = tiny::<P, Q>(d);
    let q = params::<P>(4, 0, 1, Pk::Fix);
    let g = gpt(&t);
    let sub = r.sub(Q);
    let (rx, ax) = (S::<P>::var("r"), S::<P>::var("a"));
    assume(Fm::or(rs.iter().map(|v| rx.eqk_fm(*v)).collect()));
    assume(Fm::or(axs.iter().map(|v| ax.eqk_fm(*v)).collect()));
    let (rv, av) = (decide_value(rx.0), decide_value(ax.0));
    let s = S::<Q>::var("s");
    let m = S::<P>::var("m");
    match attempt(|| eddsaposeidon_verify(Num(s), Num(S::k(rv)), Num(S::k(av)), Num(m), &q, &t)) {
        Err(e) => check(format!("verify panics: {}", e), Fm::F),
        Ok(b) => {
            let spec = match (lift(&sub, rv), lift(&sub, av)) {
                (Some(pr), Some(pa)) => {
                    // on this path the code has fixed H(R,A,M) and s; state the equation for all of them
                    let salt = Num::<S<P>>::from_seed(fawkes_crypto::constants::SEED_EDDSA_POSEIDON).0;
                    let h = reference(&[S::k(rv), S::k(av), m, salt], &q);
                    Fm::or(
                        (0..P)
                            .map(|hv| {
                                let rhs = r.add(pr, r.mul(hv % Q, pa));
                                let ok: Vec<Fm> = (0..Q).filter(|k| r.mul(*k, g) == rhs).map(|k| s.eqk_fm(k)).collect();
                                Fm::and(vec![h.eqk_fm(hv), Fm::or(ok)])
                            })
                            .collect(),
                    )
                }
                _ => Fm::F,
            };
            check("verify iff the equation holds", Fm::iff(Fm::bool(b), spec));
            cover(format!("verify {}", b), Fm::T);
        }
    }
}
/// the circuit agrees with the equation; `sel` picks the inputs
fn circuit<const P: u64, const Q: u64>(d: u64, tuples: Vec<(u64, u64, u64, u64)>, idx: usize) {
    let (t, r) = tiny::<P, Q>(d);
    let q = params::<P>(4, 0, 1, Pk::Fix);
    let g = gpt(&t);
    let sub = r.sub(Q);
    let (s, rx, ax, m) = tuples[idx];
    let n = crate::field::nbits(Q);
    let decodable = lift(&sub, rx).is_some() && lift(&sub, ax).is_some() && s < 1 << n;
    let ok = decodable && valid::<P, Q>(&r, g, s % Q, rx, ax, m, &q);
    let ins: Vec<S<P>> = [s, rx, ax, m].iter().map(|v| S::k(*v)).collect();
    if decodable {
        Gadget::new("eddsa verify", &ins).enumerate().run(
            |_, w| vec![c_eddsaposeidon_verify(&w[0], &w[1], &w[2], &w[3], &q, &t).0],
            |o| o[0].eqk_fm(ok as u64),
        );
    } else {
        // nothing to prove for a malformed signature: no witness may exist
        let cs = RecCS::<P>::new();
        match attempt(|| {
            let w: Vec<C<P>> = ins.iter().map(|_| C::alloc(&cs, None)).collect();
            c_eddsaposeidon_verify(&w[0], &w[1], &w[2], &w[3], &q, &t).0.lc.iter().cloned().collect::<Vec<_>>()
        }) {
            Err(e) => check(format!("circuit generation panics: {}", e), Fm::F),
            Ok(lc) => {
                match cs.solutions(&[s, rx, ax, m], &[lc.clone()], 20_000) {
                    Some(o) => check("malformed signature: no satisfying assignment says valid", Fm::bool(!o.contains(&vec![1]))),
                    None => {
                        let adv = cs.adversary("z", &ins);
                        check("malformed signature: no satisfying assignment says valid", Fm::and(vec![cs.sat(&adv), adv.lc(&lc).eqk_fm(1)]).not());
                    }
                }
            }
        }
        cover("malformed", Fm::T);
    }
}
/// a mix of valid and invalid signatures computed with the reference group
fn tuples<const P: u64, const Q: u64>(d: u64, sks: &[u64], ms: &[u64]) -> Vec<(u64, u64, u64, u64)> {
    let r = Ref::new(P, d);
    let g = *r.pts.iter().find(|x| r.order(**x) == Q).unwrap();
    let mut v = vec![];
    // built inside a throw-away context: constants only
    crate::engine::CTX.with(|c| *c.borrow_mut() = Some(Ctx::new(Mode::Conc(Default::default()), vec![], None, 0, false)));
    let q = params::<P>(4, 0, 1, Pk::Fix);
    for sk in sks {
        for m in ms {
            for rho in [0, 1, 3u64] {
                let a = r.mul(*sk, g).0;
                let rx = r.mul(rho, g).0;
                let h = ram(rx, a, *m, &q) % Q;
                let s = (rho + h * sk) % Q;
                v.push((s, rx, a, *m));
                v.push(((s + 1) % Q, rx, a, *m));
                if s + Q < 16 {
                    v.push((s + Q, rx, a, *m));
                }
                v.push(((Q - s) % Q, rx, a, *m));
            }
        }
    }
    // malformed: s too long, r or a no abscissa of a subgroup point
    let sub = r.sub(Q);
    let bad = (0..P).find(|x| sub.iter().all(|a| a.0 != *x) && r.pts.iter().any(|a| a.0 == *x)).unwrap();
    let off = (0..P).find(|x| r.pts.iter().all(|a| a.0 != *x)).unwrap();
    v.push((16, g.0, g.0, 1));
    v.push((P - 1, g.0, g.0, 1));
    v.push((1, bad, g.0, 1));
    v.push((1, g.0, bad, 1));
    v.push((1, off, g.0, 1));
    v.push((1, g.0, off, 1));
    crate::engine::CTX.with(|c| *c.borrow_mut() = None);
    v.sort();
    v.dedup();
    v
}
fn c12(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    let r = Ref::new(73, 5);
    let xs: Vec<u64> = {
        let mut x: Vec<u64> = r.sub(11).iter().map(|a| a.0).collect();
        x.sort();
        x
    };
    let bad = (0..73).find(|x| !xs.contains(x) && r.pts.iter().any(|a| a.0 == *x)).unwrap();
    let off = (0..73).find(|x| r.pts.iter().all(|a| a.0 != *x)).unwrap();
    v.push(case("p73q11/sign", "GF(73), subgroup order 11: every secret key, messages 0..12", || sign::<73, 11>(5, 12)));
    let few: Vec<u64> = vec![xs[0], xs[3], xs[7], bad, off];
    let rs = if th { xs.iter().cloned().chain([bad, off]).collect() } else { few.clone() };
    for a in rs.clone() {
        let rs = rs.clone();
        v.push(case(
            format!("p73q11/verify/a{}", a),
            format!("GF(73), subgroup order 11: public key {}, commitments {:?}, every response and message, hash of one partial round", a, rs),
            move || verify::<73, 11>(5, rs.clone(), vec![a]),
        ));
    }
    let tp = if th { tuples::<73, 11>(5, &[0, 1, 2, 5, 10], &[0, 1, 72]) } else { tuples::<73, 11>(5, &[0, 5], &[7]) };
    for i in 0..tp.len() {
        let tp = tp.clone();
        v.push(case(
            format!("p73q11/circuit/{}", i),
            format!("GF(73), subgroup order 11: (s,r,a,m)={:?}, all wire assignments", tp[i]),
            move || circuit::<73, 11>(5, tp.clone(), i),
        ));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            functions: &["native::poseidon::{poseidon, poseidon_with_salt}", "circuit::poseidon::{c_poseidon, c_poseidon_with_salt}"],
            outside: "other fields, other shapes (t, f, p); how the production constants are drawn",
            cases: Box::new(c10),
        },
        Prop {
            id: "C11",
            functions: &[
                "native::poseidon::{poseidon_merkle_proof_root, poseidon_merkle_tree_root}",
                "circuit::poseidon::{c_poseidon_merkle_proof_root, c_poseidon_merkle_tree_root}",
            ],
            outside: "other fields, deeper trees, more leaves",
            cases: Box::new(c11),
        },
        Prop {
            id: "C12",
            functions: &["native::eddsaposeidon::{eddsaposeidon_sign, eddsaposeidon_verify}", "circuit::eddsaposeidon::c_eddsaposeidon_verify"],
            outside: "larger curves; the unforgeability of the scheme; public keys, commitments and messages beyond the listed ones",
            cases: Box::new(c12),
        },
    ]
}
