//! C30 hash parameters: `PoseidonParams::new` with the elements drawn from the seeded generator left symbolic.
use crate::driver::*;
use crate::engine::*;
use crate::field::S;
use blake2_rfc::blake2s::Blake2s;
use fawkes_crypto::native::poseidon::{poseidon, PoseidonParams};
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    /// 64-bit word of the expected stream -> its position
    static WORDS: RefCell<HashMap<u64, usize>> = RefCell::new(HashMap::new());
    static DRAWN: RefCell<usize> = RefCell::new(0);
}
/// the 32-bit words of the generator for this salt, written down independently of the library (C25)
fn stream(salt: &[u8], n: usize) -> Vec<u32> {
    let mut h = Blake2s::new(32);
    h.update(salt);
    let key = h.finalize();
    let mut v = vec![];
    for k in 0u64.. {
        if v.len() >= n {
            break;
        }
        let mut h = Blake2s::with_params(32, &[], &[], b"__fawkes");
        h.update(&k.to_le_bytes());
        h.update(key.as_bytes());
        let d = h.finalize();
        for c in d.as_bytes().chunks(4) {
            v.push(u32::from_le_bytes([c[0], c[1], c[2], c[3]]));
        }
    }
    v
}
/// element number k of the stream is the variable draw_k; anything else is a variable of its own
fn draw(w: u64, p: u64) -> Id {
    let n = DRAWN.with(|d| {
        *d.borrow_mut() += 1;
        *d.borrow()
    });
    match WORDS.with(|t| t.borrow().get(&w).cloned()) {
        Some(k) => with(|c| c.var(&format!("draw{}", k), p)),
        None => with(|c| c.var(&format!("stray{}", n), p)),
    }
}
fn params<const P: u64>(t: usize, f: usize, p: usize, hash: bool) {
    let n = f + p + t * t;
    let w = stream(format!("fawkes_poseidon(t={},f={},p={})", t, f, p).as_bytes(), 2 * n + 8);
    WORDS.with(|m| {
        *m.borrow_mut() = w.chunks(2).enumerate().map(|(i, c)| (((c[0] as u64) << 32) | c[1] as u64, i)).collect();
    });
    DRAWN.with(|d| *d.borrow_mut() = 0);
    with(|c| c.rand_hook = Some(draw));
    let q = match attempt(|| PoseidonParams::<S<P>>::new(t, f, p)) {
        Ok(q) => q,
        Err(m) => return check(format!("parameters cannot be made: {}", m), Fm::F),
    };
    check("t, f and p are recorded", Fm::bool((q.t, q.f, q.p) == (t, f, p)));
    check("one constant per round", Fm::bool(q.c.len() == f + p));
    check("the matrix is t by t", Fm::bool(q.m.len() == t && q.m.iter().all(|r| r.len() == t)));
    // the specified elements are variables of their own, tied to the stream's elements position by position
    let d: Vec<S<P>> = (0..n)
        .map(|k| {
            let e = S::<P>::var(&format!("element{}", k));
            assume(e.eq_fm(&S::<P>::var(&format!("draw{}", k))));
            e
        })
        .collect();
    let cs = q.c.iter().take(f + p).enumerate().map(|(i, c)| c.0.eq_fm(&d[i])).collect();
    check("round constant i is element i of the stream", Fm::and(cs));
    let ms = q.m.iter().take(t).enumerate().flat_map(|(i, r)| r.iter().take(t).enumerate().map(|(j, e)| e.0.eq_fm(&d[f + p + i * t + j])).collect::<Vec<_>>()).collect();
    check("the matrix entries are the elements that follow, row by row", Fm::and(ms));
    // the parameters depend on the arguments alone: making them again, and other ones in between, changes nothing
    let _ = attempt(|| PoseidonParams::<S<P>>::new(t + 1, f, p));
    match attempt(|| PoseidonParams::<S<P>>::new(t, f, p)) {
        Ok(r) => {
            let a: Vec<S<P>> = q.c.iter().chain(q.m.iter().flatten()).map(|x| x.0).collect();
            let b: Vec<S<P>> = r.c.iter().chain(r.m.iter().flatten()).map(|x| x.0).collect();
            check("making them again gives the same", Fm::and(vec![Fm::bool(a.len() == b.len()), Fm::and(a.iter().zip(&b).map(|(x, y)| x.eq_fm(y)).collect())]));
            if hash && q.c.len() == f + p && q.m.len() == t {
                let x: Vec<_> = (0..t).map(|i| fawkes_crypto::native::num::Num(S::<P>::var(&format!("x{}", i)))).collect();
                match attempt(|| (poseidon(&x, &q).0, poseidon(&x, &r).0)) {
                    Ok((a, b)) => check("and the same hash", a.eq_fm(&b)),
                    Err(m) => check(format!("hashing with them panics: {}", m), Fm::F),
                }
            }
        }
        Err(m) => check(format!("parameters cannot be made twice: {}", m), Fm::F),
    }
    cover("end", Fm::T);
}
fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let deep = t == Tier::Thorough;
    let mut shapes = vec![];
    for s in 1..=(if deep { 6 } else { 4 }) {
        for (f, p) in [(0, 0), (1, 0), (0, 1), (2, 1), (3, 2), (8, 5)] {
            shapes.push((s, f, p));
        }
    }
    shapes.extend([(2, 8, 53), (3, 8, 53), (3, 8, 54), (4, 8, 54), (5, 8, 54), (6, 8, 54), (10, 1, 12)]);
    if deep {
        shapes.extend([(7, 8, 57), (12, 8, 60), (17, 8, 68)]);
    }
    for (s, f, p) in shapes {
        v.push(case(format!("t={} f={} p={}", s, f, p), "every value of the drawn elements", move || params::<13>(s, f, p, s <= 3 && f <= 3)));
    }
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        functions: &["native/poseidon.rs: PoseidonParams::new", "core/seedbox.rs: SeedboxBlake2 (the real hash)", "native/num.rs: Rand for Num"],
        outside: "other sizes than listed; how a field element is made from the generator's words (the ff crate)",
        cases: Box::new(cases),
    }]
}
