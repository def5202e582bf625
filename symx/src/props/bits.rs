//! C03 bit decomposition, recomposition and comparison; C04 selection
use crate::driver::*;
use crate::engine::*;
use crate::field::{nbits, S};
use crate::gadget::*;
use crate::props::num::{n_wires, operand, operand_val, Sh, SH};
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;

fn all_bits<const P: u64>(b: &[S<P>]) -> Fm {
    Fm::and(b.iter().map(|x| x.is_bit_fm()).collect())
}

fn into_bits<const P: u64>(sh: Sh, limit: usize) {
    let ins = vars::<P>("x", n_wires(&[sh]));
    let x = operand_val(sh, "a", &mut ins.iter().cloned());
    let fits = x.lt_fm(if limit >= 63 { P } else { 1 << limit });
    if sh == Sh::Const {
        // constant: decided at once
        let cs = crate::reccs::RecCS::<P>::new();
        let r = attempt(|| c_into_bits_le(&C::from_const(&cs, &Num(x)), limit).into_iter().map(|b| b.0).collect::<Vec<_>>());
        match r {
            Err(_) => {
                check("constant that fits is rejected", fits.clone().not());
                cover("rejected", Fm::T);
            }
            Ok(b) => {
                let adv = cs.adversary("", &[]);
                let o: Vec<S<P>> = b.iter().map(|n| adv.num(n)).collect();
                check("constant that does not fit is accepted", fits.clone());
                check("bits of a constant", Fm::and(vec![Fm::bool(o.len() == limit), bits_match(&x, &o)]));
                check("values of the bits of a constant", Fm::and(b.iter().zip(o.iter()).map(|(n, v)| n.value.map(|w| w.0.eq_fm(v)).unwrap_or(Fm::F)).collect()));
                cover("accepted", Fm::T);
            }
        }
        return;
    }
    Gadget::new("into_bits", &ins).accept(fits).run(
        |cs, w| c_into_bits_le(&operand(cs, sh, "a", &mut w.iter().cloned()), limit).into_iter().map(|b| b.0).collect(),
        |o| {
            let mut v = vec![Fm::bool(o.len() == limit), all_bits(o), weigh(o).eq_fm(&x)];
            if (1u64 << limit) <= P {
                v.push(x.lt_fm(1 << limit));
                v.push(bits_match(&x, o));
            }
            Fm::and(v)
        },
    );
}

fn strict<const P: u64>(sh: Sh) {
    let ins = vars::<P>("x", n_wires(&[sh]));
    let x = operand_val(sh, "a", &mut ins.iter().cloned());
    Gadget::new("into_bits_strict", &ins).run(
        |cs, w| c_into_bits_le_strict(&operand(cs, sh, "a", &mut w.iter().cloned())).into_iter().map(|b| b.0).collect(),
        |o| Fm::and(vec![Fm::bool(o.len() == nbits(P) as usize), bits_match(&x, o)]),
    );
}

fn from_bits<const P: u64>(shapes: Vec<Sh>) {
    let ins = vars::<P>("b", n_wires(&shapes));
    let mut it = ins.iter().cloned();
    let vals: Vec<S<P>> = shapes.iter().enumerate().map(|(i, s)| operand_val(*s, &format!("k{}", i), &mut it)).collect();
    let g = Gadget::new("from_bits", &ins).given(all_bits(&vals));
    for (v, s) in vals.iter().zip(shapes.iter()) {
        if *s == Sh::Const {
            assume(v.is_bit_fm());
        }
    }
    g.run(
        |cs, w| {
            let mut it = w.iter().cloned();
            let bits: Vec<B<P>> = shapes.iter().enumerate().map(|(i, s)| operand(cs, *s, &format!("k{}", i), &mut it).into_bool()).collect();
            vec![c_from_bits_le(&bits)]
        },
        |o| o[0].eq_fm(&weigh(&vals)),
    );
}

/// integer(bits) > c
fn gt_const<const P: u64>(bits: &[S<P>], c: u64) -> Fm {
    let mut g = Fm::F;
    for (i, b) in bits.iter().enumerate() {
        let one = b.eqk_fm(1);
        g = if (c >> i) & 1 == 0 { Fm::or(vec![one, g]) } else { Fm::and(vec![one, g]) };
    }
    if (c >> bits.len()) > 0 {
        return Fm::F;
    }
    g
}

fn compare<const P: u64>(shapes: Vec<Sh>) {
    let n = shapes.len();
    let ins = vars::<P>("b", n_wires(&shapes));
    let mut it = ins.iter().cloned();
    let vals: Vec<S<P>> = shapes.iter().enumerate().map(|(i, s)| operand_val(*s, &format!("k{}", i), &mut it)).collect();
    for (v, s) in vals.iter().zip(shapes.iter()) {
        if *s == Sh::Const {
            assume(v.is_bit_fm());
        }
    }
    let ct = S::<P>::var("ct");
    // the constant has to fit in the compared width (rounded up to whole pairs)
    assume(ct.lt_fm(1 << (n + (n & 1))));
    Gadget::new("greater_than_constant", &ins).given(all_bits(&vals)).run(
        |cs, w| {
            let mut it = w.iter().cloned();
            let bits: Vec<B<P>> = shapes.iter().enumerate().map(|(i, s)| operand(cs, *s, &format!("k{}", i), &mut it).into_bool()).collect();
            vec![c_comp_constant(&bits, Num(ct)).0]
        },
        |o| {
            Fm::and(
                (0..P)
                    .map(|c| {
                        let g = gt_const(&vals, c);
                        Fm::implies(
                            ct.eqk_fm(c),
                            Fm::and(vec![Fm::implies(g.clone(), o[0].eqk_fm(1)), Fm::implies(g.not(), o[0].is_zero_fm())]),
                        )
                    })
                    .collect(),
            )
        },
    );
}

/// bits -> number -> bits
fn round_trip<const P: u64>() {
    let ins = vars::<P>("x", 1);
    Gadget::new("strict round trip", &ins).run(
        |_, w| {
            let bits = c_into_bits_le_strict(&w[0]);
            vec![c_from_bits_le(&bits)]
        },
        |o| o[0].eq_fm(&ins[0]),
    );
}

fn c03<const P: u64>(tier: Tier) -> Vec<Case> {
    let nb = nbits(P) as usize;
    let mut v = vec![];
    let bd = format!("GF({}), every value, every assignment of the new wires", P);
    for sh in SH {
        for l in 1..=nb {
            v.push(case(format!("into_bits/p{}/{:?}/{}", P, sh, l), bd.clone(), move || into_bits::<P>(sh, l)));
        }
        v.push(case(format!("strict/p{}/{:?}", P, sh), bd.clone(), move || strict::<P>(sh)));
    }
    for l in 1..=nb + 1 {
        v.push(case(format!("from_bits/p{}/{}", P, l), bd.clone(), move || from_bits::<P>(vec![Sh::Wire; l])));
    }
    v.push(case(format!("from_bits/p{}/mixed", P), bd.clone(), || from_bits::<P>(vec![Sh::Wire, Sh::Const, Sh::Wire, Sh::Const])));
    v.push(case(format!("from_bits/p{}/mixed2", P), bd.clone(), || from_bits::<P>(vec![Sh::Const, Sh::Wire, Sh::Lc])));
    let maxlen = if tier == Tier::Quick { nb.min(5) } else { nb };
    for l in 1..=maxlen {
        v.push(case(format!("compare/p{}/{}", P, l), format!("{}, every constant that fits", bd), move || compare::<P>(vec![Sh::Wire; l])));
    }
    v.push(case(format!("compare/p{}/mixed", P), bd.clone(), || compare::<P>(vec![Sh::Wire, Sh::Const, Sh::Const, Sh::Wire])));
    v.push(case(format!("compare/p{}/mixed2", P), bd.clone(), || compare::<P>(vec![Sh::Const, Sh::Wire, Sh::Wire])));
    v.push(case(format!("round_trip/p{}", P), bd.clone(), round_trip::<P>));
    v
}

fn switch_case<const P: u64>(bsh: Sh, sa: Sh, sb: Sh, as_bool: bool) {
    let shapes = [bsh, sa, sb];
    let ins = vars::<P>("x", n_wires(&shapes));
    let mut it = ins.iter().cloned();
    let s = operand_val(bsh, "s", &mut it);
    let a = operand_val(sa, "a", &mut it);
    let b = operand_val(sb, "b", &mut it);
    let mut given = vec![s.is_bit_fm()];
    if as_bool {
        given.push(a.is_bit_fm());
        given.push(b.is_bit_fm());
    }
    let given = Fm::and(given);
    assume_const(&[(bsh, s)]);
    if as_bool {
        assume_const(&[(sa, a), (sb, b)]);
    }
    Gadget::new("switch", &ins).given(given).run(
        |cs, w| {
            let mut it = w.iter().cloned();
            let s = operand(cs, bsh, "s", &mut it).into_bool();
            let a = operand(cs, sa, "a", &mut it);
            let b = operand(cs, sb, "b", &mut it);
            if as_bool {
                vec![a.into_bool().switch(&s, &b.into_bool()).0, s.if_else(&a.into_bool(), &b.into_bool()).0]
            } else {
                vec![a.switch(&s, &b), s.if_else(&a, &b)]
            }
        },
        |o| {
            Fm::and(vec![
                Fm::implies(s.eqk_fm(1), eqs(o, &[a, a])),
                Fm::implies(s.is_zero_fm(), eqs(o, &[b, b])),
            ])
        },
    );
}
fn assume_const<const P: u64>(v: &[(Sh, S<P>)]) {
    for (sh, x) in v {
        if *sh == Sh::Const {
            assume(x.is_bit_fm())
        }
    }
}

/// `sym`: which of the 8 table entries are symbolic (the rest are fixed distinct constants)
fn mux_case<const P: u64>(shapes: [Sh; 3], sym: u32, cols: usize) {
    let ins = vars::<P>("s", n_wires(&shapes));
    let mut it = ins.iter().cloned();
    let s: Vec<S<P>> = shapes.iter().enumerate().map(|(i, sh)| operand_val(*sh, &format!("k{}", i), &mut it)).collect();
    for i in 0..3 {
        assume_const(&[(shapes[i], s[i])]);
    }
    let tab: Vec<Vec<S<P>>> = (0..cols)
        .map(|c| {
            (0..8)
                .map(|i| {
                    if (sym >> i) & 1 == 1 && c == 0 {
                        S::var(&format!("t{}_{}", c, i))
                    } else {
                        S::k((i as u64 * 5 + 3 + c as u64 * 2) % P)
                    }
                })
                .collect()
        })
        .collect();
    Gadget::new("mux3", &ins).given(all_bits(&s)).run(
        |cs, w| {
            let mut it = w.iter().cloned();
            let bits: Vec<B<P>> = shapes.iter().enumerate().map(|(i, sh)| operand(cs, *sh, &format!("k{}", i), &mut it).into_bool()).collect();
            let t: Vec<Vec<Num<S<P>>>> = tab.iter().map(|r| r.iter().map(|x| Num(*x)).collect()).collect();
            c_mux3(&bits, &t)
        },
        |o| {
            if o.len() != cols {
                return Fm::F;
            }
            let mut v = vec![];
            for k in 0..8u64 {
                let sel = Fm::and((0..3).map(|i| s[i].eqk_fm((k >> i) & 1)).collect());
                for c in 0..cols {
                    v.push(Fm::implies(sel.clone(), o[c].eq_fm(&tab[c][k as usize])));
                }
            }
            Fm::and(v)
        },
    );
}

fn c04<const P: u64>(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    let bd = format!("GF({}), every selector bit and operand value", P);
    for s in [Sh::Wire, Sh::Const] {
        for a in SH {
            for b in SH {
                for ab in [false, true] {
                    v.push(case(format!("switch/p{}/{:?}-{:?}-{:?}/{}", P, s, a, b, if ab { "bool" } else { "num" }), bd.clone(), move || switch_case::<P>(s, a, b, ab)));
                }
            }
        }
    }
    let w = Sh::Wire;
    let c = Sh::Const;
    let masks: Vec<u32> = if tier == Tier::Quick { vec![0x0f, 0xf0, 0x55, 0xaa] } else { vec![0x3f, 0xfc, 0xcf, 0xf3, 0x55, 0xaa] };
    for m in masks {
        v.push(case(format!("mux3/p{}/{:02x}", P, m), format!("{}; table entries in mask {:02x} symbolic, others fixed", bd, m), move || mux_case::<P>([w, w, w], m, 1)));
    }
    for sh in [[c, w, w], [w, c, w], [w, w, c], [c, c, c], [w, c, c], [c, c, w], [c, w, c]] {
        v.push(case(format!("mux3/p{}/{:?}", P, sh), format!("{}; 2 columns, constant selector bits", bd), move || mux_case::<P>(sh, 0x03, 2)));
    }
    for cols in 1..=3 {
        v.push(case(format!("mux3/p{}/cols{}", P, cols), format!("{}; fixed tables", bd), move || mux_case::<P>([w, w, w], 0, cols)));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            functions: &["circuit::bitify::{c_into_bits_le,c_into_bits_le_strict,c_from_bits_le,c_comp_constant}", "native::num::{BitIteratorLE, Num::iterbit_le}"],
            outside: "primes other than the listed ones; more bits than the field has",
            cases: Box::new(|t| {
                let mut v = c03::<13>(t);
                v.extend(c03::<17>(t));
                v.extend(c03::<29>(t));
                v.extend(c03::<61>(t));
                v.extend(shipped::cases::<fawkes_crypto::native::bn256::Fr>("bn256", t));
                v.extend(shipped::cases::<fawkes_crypto::native::bls12_381::Fr>("bls12_381", t));
                if t == Tier::Thorough {
                    v.extend(c03::<31>(t));
                    v.extend(c03::<251>(t));
                    v.extend(c03::<127>(t));
                    v.extend(c03::<73>(t));
                }
                v
            }),
        },
        Prop {
            id: "C04",
            functions: &["circuit::num::CNum::switch", "circuit::bool::CBool::{switch,if_else}", "circuit::mux::c_mux3"],
            outside: "primes other than the listed ones; tables with more symbolic entries at once than listed",
            cases: Box::new(|t| {
                let mut v = c04::<13>(t);
                if t == Tier::Thorough {
                    v.extend(c04::<29>(t));
                }
                v
            }),
        },
    ]
}

// ---- the shipped fields -----------------------------------------------------------------------
mod shipped {
    use super::*;
    use crate::full::*;
    use fawkes_crypto::circuit::bool::CBool;
    use fawkes_crypto::circuit::num::CNum;
    use fawkes_crypto::core::field::Field;
    use num::bigint::BigUint;

    type N<'a, F> = CNum<'a, FullCS<F>>;
    fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match attempt(f) {
            Ok(x) => Some(x),
            Err(m) => {
                check(format!("{} panics: {}", what, m), Fm::F);
                None
            }
        }
    }
    fn number<'a, F: Field>(cs: &'a FullCS<F>, lc: bool) -> N<'a, F> {
        let x: N<F> = CNum::alloc(cs, None);
        if lc {
            let y: N<F> = CNum::alloc(cs, None);
            x * Num::from(3u64) + y - Num::from(7u64)
        } else {
            x
        }
    }
    pub fn into_bits<F: Field>(n: usize, lc: bool) {
        let cs = FullCS::<F>::new();
        let x = number(&cs, lc);
        if let Some(b) = guard("into_bits", || c_into_bits_le(&x, n)) {
            check("as many bits as asked for", Fm::bool(b.len() == n));
            let mut s = Sys::new(&cs);
            let c = Claim::Bits { of: s.num(&x), out: b.iter().map(|b| s.num(&b.0)).collect(), canonical: false };
            settle(&mut s, &c);
        }
    }
    pub fn strict<F: Field>(lc: bool) {
        let cs = FullCS::<F>::new();
        let x = number(&cs, lc);
        if let Some(b) = guard("into_bits_strict", || c_into_bits_le_strict(&x)) {
            check("as many bits as the field has", Fm::bool(b.len() == F::NUM_BITS as usize));
            let mut s = Sys::new(&cs);
            let c = Claim::Bits { of: s.num(&x), out: b.iter().map(|b| s.num(&b.0)).collect(), canonical: true };
            settle(&mut s, &c);
        }
    }
    fn booleans<'a, F: Field>(cs: &'a FullCS<F>, n: usize) -> Vec<CBool<'a, FullCS<F>>> {
        (0..n).map(|_| CBool::alloc(cs, None)).collect()
    }
    pub fn from_bits<F: Field>(n: usize) {
        let cs = FullCS::<F>::new();
        let b = booleans(&cs, n);
        if let Some(x) = guard("from_bits", || c_from_bits_le(&b)) {
            let mut s = Sys::new(&cs);
            let of: Vec<Aff> = b.iter().map(|b| s.num(&b.0)).collect();
            for o in &of {
                s.boolean(o);
            }
            let c = Claim::Sum { out: s.num(&x), of };
            settle(&mut s, &c);
        }
    }
    pub fn compare<F: Field>(n: usize, k: BigUint) {
        let cs = FullCS::<F>::new();
        let b = booleans(&cs, n);
        let ct = Num(F::from_str(&k.to_string()).expect("constant"));
        if let Some(r) = guard("comp_constant", || c_comp_constant(&b, ct)) {
            let mut s = Sys::new(&cs);
            let of: Vec<Aff> = b.iter().map(|b| s.num(&b.0)).collect();
            for o in &of {
                s.boolean(o);
            }
            let c = Claim::Greater { out: s.num(&r.0), of, k };
            settle(&mut s, &c);
        }
    }
    pub fn cases<F: Field>(name: &str, t: Tier) -> Vec<Case> {
        let nb = F::NUM_BITS as usize;
        let mut v = vec![];
        let bd = "the shipped field at full size, every number, every assignment of the new wires";
        let q = t == Tier::Quick;
        let lens: Vec<usize> = if q { vec![1, 2, 31, 63, 64, 65, 66, 127, 128, 129, nb - 2, nb - 1, nb] } else { (1..=nb).collect() };
        for n in lens {
            v.push(case(format!("{}/into_bits/{}", name, n), bd, move || into_bits::<F>(n, n % 2 == 1)));
            v.push(case(format!("{}/from_bits/{}", name, n), bd, move || from_bits::<F>(n)));
        }
        v.push(case(format!("{}/strict", name), bd, || strict::<F>(false)));
        v.push(case(format!("{}/strict/sum", name), bd, || strict::<F>(true)));
        let p = modulus::<F>();
        let one = BigUint::from(1u32);
        let pat = BigUint::parse_bytes("1b2d3c4f5a6978870123456789abcdef0f1e2d3c4b5a69788796a5b4c3d2e1f0".as_bytes(), 16).unwrap();
        let lens: Vec<usize> = if q { vec![1, 2, 3, 64, 65, 66, 128, 129, nb - 1, nb] } else { (1..=nb).filter(|n| *n < 8 || n % 3 == 0 || *n + 4 > nb).collect() };
        for n in lens {
            let top = if n >= nb { &p - &one } else { (&one << n) - &one };
            let mut ks = vec![BigUint::from(0u32), &top / 2u32, &pat % (&top + &one), top.clone()];
            if !q {
                ks.extend(vec![one.clone(), &top / 3u32, &top - &one, (&pat * &pat) % (&top + &one)]);
            }
            ks.sort();
            ks.dedup();
            for k in ks {
                if k > top {
                    continue;
                }
                v.push(case(format!("{}/compare/{}/{:x}", name, n, k), bd, move || compare::<F>(n, k.clone())));
            }
        }
        v
    }
}
