//! Circuits over the shipped, full-size fields whose constraints are linear up to two-valued factors (bit decomposition,
//! comparison): the recorded constraints are reduced, by exact steps over GF(p), to linear equations between booleans,
//! which z3 decides by bit-serial addition.
use crate::engine::*;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use ff::{PrimeField, PrimeFieldRepr};
use num::bigint::{BigInt, BigUint};
use num::{One, Signed, Zero};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Instant;

static GIVEN_UP: AtomicUsize = AtomicUsize::new(0);
type Lc<F> = Vec<(Index, Num<F>)>;
#[derive(Clone)]
pub struct FullCS<F: Field> {
    pub wires: RefCell<usize>,
    pub inputs: RefCell<usize>,
    pub cons: RefCell<Vec<[Lc<F>; 3]>>,
}
impl<F: Field> FullCS<F> {
    pub fn new() -> Self {
        FullCS { wires: RefCell::new(0), inputs: RefCell::new(0), cons: RefCell::new(vec![]) }
    }
}
fn lc_of<F: Field>(n: &CNum<FullCS<F>>) -> Lc<F> {
    n.lc.iter().cloned().collect()
}
impl<F: Field> ConstraintSystem for FullCS<F> {
    type F = F;
    fn alloc(&self, _: Option<Num<F>>) -> Index {
        *self.wires.borrow_mut() += 1;
        Index::Aux(*self.wires.borrow() - 1)
    }
    fn alloc_input(&self, _: Option<Num<F>>) -> Index {
        *self.inputs.borrow_mut() += 1;
        Index::Input(*self.inputs.borrow())
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        self.cons.borrow_mut().push([lc_of(a), lc_of(b), lc_of(c)]);
    }
}
pub fn int<F: PrimeField>(x: &F) -> BigUint {
    let mut b = vec![];
    x.into_repr().write_be(&mut b).unwrap();
    BigUint::from_bytes_be(&b)
}
pub fn modulus<F: PrimeField>() -> BigUint {
    let mut b = vec![];
    F::char().write_be(&mut b).unwrap();
    BigUint::from_bytes_be(&b)
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Sym {
    /// a wire not yet expressed by others
    W(bool, usize),
    /// a boolean
    B(usize),
}
#[derive(Clone, PartialEq, Default, Debug)]
pub struct Aff {
    pub k: BigUint,
    pub t: BTreeMap<Sym, BigUint>,
}

pub struct Sys {
    p: BigUint,
    /// wires expressed by other symbols
    subs: BTreeMap<Sym, Aff>,
    /// conjunctions: Some((a, b)) is a and b
    pub bools: Vec<Option<(usize, usize)>>,
    ands: BTreeMap<(usize, usize), usize>,
    /// linear equations between booleans
    eqs: Vec<Aff>,
    /// products of two linear terms that are zero
    ors: Vec<(Aff, Aff)>,
    cons: Vec<[Aff; 3]>,
    script: String,
    n: usize,
    /// an equation has too many solutions over the integers
    wide: bool,
}
impl Sys {
    pub fn new<F: Field>(cs: &FullCS<F>) -> Sys {
        let mut s = Sys { p: modulus::<F>(), subs: BTreeMap::new(), bools: vec![], ands: BTreeMap::new(), eqs: vec![], ors: vec![], cons: vec![], script: String::new(), n: 0, wide: false };
        s.cons = cs.cons.borrow().iter().map(|c| [s.lc(&c[0]), s.lc(&c[1]), s.lc(&c[2])]).collect();
        s
    }
    fn lc<F: Field>(&self, l: &Lc<F>) -> Aff {
        let mut r = Aff::default();
        for (i, c) in l {
            let c = int(&c.into_inner());
            match i {
                Index::Input(0) => r.k = (&r.k + c) % &self.p,
                Index::Input(i) => self.addt(&mut r, Sym::W(false, *i), &c),
                Index::Aux(i) => self.addt(&mut r, Sym::W(true, *i), &c),
            }
        }
        r
    }
    pub fn num<F: Field>(&self, n: &CNum<FullCS<F>>) -> Aff {
        self.lc(&lc_of(n))
    }
    fn addt(&self, a: &mut Aff, s: Sym, c: &BigUint) {
        let v = (a.t.get(&s).cloned().unwrap_or_default() + c) % &self.p;
        if v.is_zero() {
            a.t.remove(&s);
        } else {
            a.t.insert(s, v);
        }
    }
    pub fn addmul(&self, a: &Aff, b: &Aff, c: &BigUint) -> Aff {
        let mut r = a.clone();
        r.k = (&r.k + &b.k * c) % &self.p;
        for (s, v) in &b.t {
            self.addt(&mut r, *s, &(v * c % &self.p));
        }
        r
    }
    pub fn konst(&self, k: u64) -> Aff {
        Aff { k: BigUint::from(k), t: BTreeMap::new() }
    }
    pub fn sub(&self, a: &Aff, b: &Aff) -> Aff {
        self.addmul(a, b, &(&self.p - BigUint::one()))
    }
    pub fn scale(&self, a: &Aff, c: &BigUint) -> Aff {
        self.addmul(&Aff::default(), a, c)
    }
    fn inv(&self, a: &BigUint) -> BigUint {
        a.modpow(&(&self.p - BigUint::from(2u32)), &self.p)
    }
    pub fn reduce(&self, a: &Aff) -> Aff {
        let mut r = Aff { k: a.k.clone(), t: BTreeMap::new() };
        for (s, c) in &a.t {
            match self.subs.get(s) {
                Some(b) => r = self.addmul(&r, b, c),
                None => self.addt(&mut r, *s, c),
            }
        }
        r
    }
    fn wire_in(a: &Aff) -> Option<Sym> {
        a.t.keys().find(|s| matches!(s, Sym::W(..))).cloned()
    }
    fn fresh(&mut self) -> usize {
        self.bools.push(None);
        self.bools.len() - 1
    }
    pub fn boolean(&mut self, a: &Aff) {
        let b = self.fresh();
        let v = Aff { k: BigUint::zero(), t: [(Sym::B(b), BigUint::one())].iter().cloned().collect() };
        let e = self.sub(a, &v);
        self.equation(&e);
    }
    fn and(&mut self, a: usize, b: usize) -> usize {
        if a == b {
            return a;
        }
        let k = (a.min(b), a.max(b));
        if let Some(x) = self.ands.get(&k) {
            return *x;
        }
        self.bools.push(Some(k));
        self.ands.insert(k, self.bools.len() - 1);
        self.bools.len() - 1
    }
    fn replace(&mut self, w: Sym, v: Aff) {
        let old: Vec<Sym> = self.subs.iter().filter(|(_, b)| b.t.contains_key(&w)).map(|(s, _)| *s).collect();
        self.subs.insert(w, v);
        for s in old {
            let b = self.reduce(&self.subs[&s]);
            self.subs.insert(s, b);
        }
    }
    /// a = 0
    fn equation(&mut self, a: &Aff) {
        let a = self.reduce(a);
        match Self::wire_in(&a) {
            Some(w) => {
                let c = self.inv(&a.t[&w]);
                let mut rest = a.clone();
                rest.t.remove(&w);
                let v = self.scale(&rest, &(&self.p - c));
                self.replace(w, v);
            }
            None => {
                if a != Aff::default() {
                    self.eqs.push(a)
                }
            }
        }
    }
    /// a affine in one boolean: (constant, coefficient, boolean)
    fn one_bool(a: &Aff) -> Option<(BigUint, BigUint, usize)> {
        if a.t.len() != 1 {
            return None;
        }
        match a.t.iter().next().unwrap() {
            (Sym::B(b), c) => Some((a.k.clone(), c.clone(), *b)),
            _ => None,
        }
    }
    /// a sum of a few booleans with only two values, as one boolean
    fn shorten(&mut self, a: Aff) -> Aff {
        if a.t.len() < 2 || a.t.len() > 6 {
            return a;
        }
        let mut atoms: Vec<usize> = vec![];
        for s in a.t.keys() {
            if let Sym::B(b) = s {
                match self.bools[*b] {
                    Some((x, y)) => atoms.extend(vec![x, y]),
                    None => atoms.push(*b),
                }
            }
        }
        atoms.sort();
        atoms.dedup();
        if atoms.len() > 8 {
            return a;
        }
        let mut vals: Vec<BigUint> = vec![];
        for m in 0..1u32 << atoms.len() {
            let at = |b: usize| atoms.iter().position(|x| *x == b).map_or(false, |i| m >> i & 1 == 1);
            let mut v = a.k.clone();
            for (s, c) in &a.t {
                if let Sym::B(b) = s {
                    let t = match self.bools[*b] {
                        Some((x, y)) => at(x) && at(y),
                        None => at(*b),
                    };
                    if t {
                        v += c;
                    }
                }
            }
            let v = v % &self.p;
            if !vals.contains(&v) {
                vals.push(v);
            }
        }
        if vals.len() != 2 {
            return a;
        }
        let x = self.fresh();
        let y = Aff { k: vals[0].clone(), t: [(Sym::B(x), (&vals[1] + &self.p - &vals[0]) % &self.p)].iter().cloned().collect() };
        let e = self.sub(&a, &y);
        self.eqs.push(e.clone());
        // and the same sum is short from here on
        let gone = a.t.keys().rev().find(|s| matches!(s, Sym::B(b) if self.bools[*b].is_some())).cloned();
        if let Some(w) = gone {
            let c = self.inv(&e.t[&w]);
            let mut rest = e;
            rest.t.remove(&w);
            let v = self.scale(&rest, &(&self.p - c));
            self.replace(w, v);
        }
        y
    }
    /// reduces all constraints; Err: a product of another kind
    pub fn solve(&mut self) -> Result<(), String> {
        let mut todo = self.cons.clone();
        loop {
            let mut rest = vec![];
            let n = todo.len();
            for c in todo {
                let (a, b, d) = (self.reduce(&c[0]), self.reduce(&c[1]), self.reduce(&c[2]));
                if a.t.is_empty() || b.t.is_empty() {
                    let (k, x) = if a.t.is_empty() { (a.k.clone(), b) } else { (b.k.clone(), a) };
                    let e = self.addmul(&self.scale(&d, &(&self.p - BigUint::one())), &x, &k);
                    self.equation(&e);
                    continue;
                }
                if d == Aff::default() {
                    // b = l a + m: a is 0 or -m/l
                    let (s, c) = a.t.iter().next().map(|(s, c)| (*s, c.clone())).unwrap();
                    let l = b.t.get(&s).map(|x| x * self.inv(&c) % &self.p).unwrap_or_default();
                    let m = self.sub(&b, &self.scale(&a, &l));
                    if m.t.is_empty() && !l.is_zero() {
                        let v = (&self.p - &m.k) * self.inv(&l) % &self.p;
                        if v.is_zero() {
                            self.equation(&a);
                            continue;
                        }
                        if let Some((k, c, _)) = Self::one_bool(&a) {
                            let h = (&k + &c) % &self.p;
                            if (k.is_zero() || k == v) && (h.is_zero() || h == v) {
                                continue;
                            }
                        }
                        let x = self.fresh();
                        let y = Aff { k: BigUint::zero(), t: [(Sym::B(x), v)].iter().cloned().collect() };
                        let e = self.sub(&a, &y);
                        self.equation(&e);
                        continue;
                    }
                }
                let pick = [(&a, &b), (&b, &a)].iter().find_map(|(x, y)| match Self::one_bool(x) {
                    Some(o) if Self::wire_in(y).is_none() => Some((o, (*y).clone())),
                    _ => None,
                });
                if let Some(((k, c, v), y)) = pick {
                    let y = self.shorten(y);
                    if y.t.len() > 1000 || self.bools.len() > 20000 {
                        return Err("a product of a boolean with a long sum".into());
                    }
                    // (k + c v) y = d
                    let mut vy = Aff::default();
                    self.addt(&mut vy, Sym::B(v), &y.k.clone());
                    for (s, z) in &y.t {
                        if let Sym::B(w) = s {
                            let x = self.and(v, *w);
                            self.addt(&mut vy, Sym::B(x), z);
                        }
                    }
                    let e = self.addmul(&self.scale(&y, &k), &vy, &c);
                    let e = self.sub(&e, &d);
                    self.equation(&e);
                    continue;
                }
                rest.push(c);
            }
            if rest.is_empty() {
                return Ok(());
            }
            if rest.len() == n {
                for c in rest {
                    let (a, b, d) = (self.reduce(&c[0]), self.reduce(&c[1]), self.reduce(&c[2]));
                    if d != Aff::default() || Self::wire_in(&a).is_some() || Self::wire_in(&b).is_some() {
                        return Err("a product of two terms that are not two-valued".into());
                    }
                    self.ors.push((a, b));
                }
                return Ok(());
            }
            todo = rest;
        }
    }

    // ---- SMT -------------------------------------------------------------------------------
    fn name(&mut self, e: String) -> String {
        self.n += 1;
        let v = format!("d{}", self.n);
        let _ = writeln!(self.script, "(declare-const {} Bool)\n(assert (= {} {}))", v, v, e);
        v
    }
    fn header(&mut self) {
        self.script = "(set-logic QF_BV)\n".into();
        self.n = 0;
        for (i, d) in self.bools.iter().enumerate() {
            let _ = writeln!(self.script, "(declare-const b{} Bool)", i);
            if let Some((x, y)) = d {
                let _ = writeln!(self.script, "(assert (= b{} (and b{} b{})))", i, x, y);
            }
        }
    }
    /// coefficients around zero, scaled so that they are small
    fn centred(&self, a: &Aff) -> (BigInt, Vec<(BigInt, usize)>) {
        let p = BigInt::from(self.p.clone());
        let half = &p / 2;
        let c = |x: &BigUint| {
            let x = BigInt::from(x.clone());
            if x > half {
                x - &p
            } else {
                x
            }
        };
        let mut best: Option<(BigInt, BigInt, Vec<(BigInt, usize)>)> = None;
        let mut scales: Vec<BigUint> = vec![BigUint::one()];
        scales.extend(a.t.values().take(6).map(|x| self.inv(x)));
        for s in scales {
            let b = self.scale(a, &s);
            let k = c(&b.k);
            let t: Vec<(BigInt, usize)> = b.t.iter().map(|(s, v)| (c(v), if let Sym::B(i) = s { *i } else { panic!("wire") })).collect();
            let size = t.iter().fold(k.abs(), |z, (v, _)| z + v.abs());
            if best.as_ref().map_or(true, |x| size < x.0) {
                best = Some((size, k, t));
            }
        }
        let (_, k, t) = best.unwrap();
        (k, t)
    }
    /// the boolean "a = 0 in the field"
    fn zero(&mut self, a: &Aff) -> String {
        if a.t.is_empty() {
            return if a.k.is_zero() { "true".into() } else { "false".into() };
        }
        let (k, t) = self.centred(a);
        let lo = t.iter().filter(|x| x.0.is_negative()).fold(k.clone(), |z, x| z + &x.0);
        let hi = t.iter().filter(|x| x.0.is_positive()).fold(k.clone(), |z, x| z + &x.0);
        let size = lo.abs().max(hi.abs());
        let len = size.to_str_radix(2).len() + 1;
        // bit-serial sum; terms by bit position
        let mut at: Vec<Vec<(bool, Option<usize>)>> = vec![vec![]; len + 1];
        let mut put = |v: &BigInt, b: Option<usize>| {
            let neg = v.is_negative();
            for (i, c) in v.abs().to_str_radix(2).chars().rev().enumerate() {
                if c == '1' {
                    at[i].push((neg, b));
                }
            }
        };
        put(&k, None);
        for (v, b) in &t {
            put(v, Some(*b));
        }
        let most = at.iter().map(|x| x.len()).max().unwrap() as u64;
        let w = 64 - (2 * most + 2).leading_zeros() as usize + 2;
        let bv = |x: i64| format!("(_ bv{} {})", (x as u64) & ((1u64 << w) - 1), w);
        let mut carry = bv(0);
        let mut sum = vec![];
        for pos in at.iter() {
            let mut parts = vec![carry];
            for (neg, b) in pos {
                let v = bv(if *neg { -1 } else { 1 });
                parts.push(match b {
                    None => v,
                    Some(i) => format!("(ite b{} {} {})", i, v, bv(0)),
                });
            }
            self.n += 1;
            let d = format!("d{}", self.n);
            let e = if parts.len() > 1 { format!("(bvadd {})", parts.join(" ")) } else { parts.pop().unwrap() };
            let _ = writeln!(self.script, "(declare-const {} (_ BitVec {}))\n(assert (= {} {}))", d, w, d, e);
            sum.push(format!("(= ((_ extract 0 0) {}) #b1)", d));
            carry = format!("(bvashr {} {})", d, bv(1));
        }
        // the multiples of the modulus in reach
        let p = BigInt::from(self.p.clone());
        let mut m = BigInt::zero();
        while &m - &p >= lo {
            m -= &p;
        }
        while m < lo {
            m += &p;
        }
        let mut alt = vec![];
        while m <= hi {
            let neg = m.is_negative();
            // two's complement digits
            let width = sum.len();
            let v: BigInt = if neg { (BigInt::one() << width) + &m } else { m.clone() };
            let s: Vec<char> = v.to_str_radix(2).chars().rev().collect();
            let mut c = vec![format!("(= {} {})", carry, bv(if neg { -1 } else { 0 }))];
            for (i, x) in sum.iter().enumerate() {
                c.push(if s.get(i) == Some(&'1') { x.clone() } else { format!("(not {})", x) });
            }
            alt.push(format!("(and {})", c.join(" ")));
            m += &p;
            if alt.len() > 600 {
                self.wide = true;
                return "false".into();
            }
        }
        let e = match alt.len() {
            0 => "false".into(),
            1 => alt.pop().unwrap(),
            _ => format!("(or {})", alt.join(" ")),
        };
        self.name(e)
    }
    /// the boolean "a = 1"; None when a is not determined by booleans
    pub fn truth(&mut self, a: &Aff) -> Option<String> {
        let a = self.reduce(a);
        if Self::wire_in(&a).is_some() {
            return None;
        }
        if let Some((k, c, b)) = Self::one_bool(&a) {
            if k.is_zero() && c.is_one() {
                return Some(format!("b{}", b));
            }
            if k.is_one() && c == &self.p - BigUint::one() {
                return Some(format!("(not b{})", b));
            }
        }
        let e = self.sub(&a, &self.konst(1));
        Some(self.zero(&e))
    }
    /// "a is neither 0 nor 1"
    fn not_bool(&mut self, a: &Aff) -> String {
        let a = self.reduce(a);
        if a.t.is_empty() && (a.k.is_zero() || a.k.is_one()) {
            return "false".into();
        }
        if let Some((k, c, _)) = Self::one_bool(&a) {
            if (k.is_zero() && c.is_one()) || (k.is_one() && c == &self.p - BigUint::one()) {
                return "false".into();
            }
        }
        let x = self.zero(&a);
        let e = self.sub(&a, &self.konst(1));
        let y = self.zero(&e);
        format!("(not (or {} {}))", x, y)
    }
    /// the boolean "the integer with these bits exceeds k"
    fn greater(&mut self, bits: &[String], k: &BigUint) -> String {
        if k.to_str_radix(2).len() > bits.len() {
            return "false".into();
        }
        let ks: Vec<char> = k.to_str_radix(2).chars().rev().collect();
        let mut g = "false".to_string();
        for (i, b) in bits.iter().enumerate() {
            g = self.name(format!("({} {} {})", if ks.get(i) == Some(&'1') { "and" } else { "or" }, b, g));
        }
        g
    }
    /// a model of the constraints with the negated claim (None: there is none); Err: no answer
    fn ask(&mut self, goal: &str) -> Result<Option<Vec<bool>>, String> {
        let mut asserts = String::new();
        for e in self.eqs.clone() {
            let z = self.zero(&e);
            let _ = writeln!(asserts, "(assert {})", z);
        }
        for (a, b) in self.ors.clone() {
            let (x, y) = (self.zero(&a), self.zero(&b));
            let _ = writeln!(asserts, "(assert (or {} {}))", x, y);
        }
        if self.wide {
            return Err("an equation with too many carries".into());
        }
        let names: Vec<String> = (0..self.bools.len()).map(|i| format!("b{}", i)).collect();
        let get = if names.is_empty() { String::new() } else { format!("(get-value ({}))\n", names.join(" ")) };
        let script = format!("{}{}(assert {})\n(check-sat)\n{}", self.script, asserts, goal, get);
        // a hard rewrite of the code must not use up the check's time
        if GIVEN_UP.load(Ordering::SeqCst) >= 8 {
            return Err("no answer on several queries before".into());
        }
        let t = Instant::now();
        let mut c = Command::new("timeout").arg("60").arg("z3-new").arg("-in").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
        c.stdin.take().unwrap().write_all(script.as_bytes()).map_err(|e| e.to_string())?;
        let o = c.wait_with_output().map_err(|e| e.to_string())?;
        let o = String::from_utf8_lossy(&o.stdout).to_string();
        let s = t.elapsed().as_secs_f64();
        let verdict = o.lines().next().unwrap_or("").trim().to_string();
        with(|x| {
            x.stats.queries += 1;
            x.stats.solver_s += s;
            if s > x.stats.max_query_s {
                x.stats.max_query_s = s;
            }
            match verdict.as_str() {
                "sat" => x.stats.sat += 1,
                "unsat" => x.stats.unsat += 1,
                _ => x.stats.unknown += 1,
            }
        });
        match verdict.as_str() {
            "unsat" => Ok(None),
            "sat" => {
                let toks: Vec<&str> = o.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|x| !x.is_empty()).collect();
                let mut v = vec![false; self.bools.len()];
                for w in toks.windows(2) {
                    if let Some(i) = w[0].strip_prefix('b').and_then(|x| x.parse::<usize>().ok()) {
                        v[i] = w[1] == "true";
                    }
                }
                Ok(Some(v))
            }
            x => {
                GIVEN_UP.fetch_add(1, Ordering::SeqCst);
                Err(format!("solver said {:?}", x))
            }
        }
    }
    // ---- evaluation ------------------------------------------------------------------------
    fn eval(&self, a: &Aff, m: &[bool], free: &BigUint) -> BigUint {
        let a = self.reduce(a);
        let mut r = a.k.clone();
        for (s, c) in &a.t {
            match s {
                Sym::B(b) if m[*b] => r += c,
                Sym::B(_) => {}
                Sym::W(..) => r += c * free,
            }
        }
        r % &self.p
    }
    /// the constraints hold under the assignment
    fn satisfied(&self, m: &[bool], free: &BigUint) -> bool {
        self.cons.iter().all(|c| self.eval(&c[0], m, free) * self.eval(&c[1], m, free) % &self.p == self.eval(&c[2], m, free))
    }
}

/// what the outputs must be
pub enum Claim {
    /// boolean outputs whose weighted sum is the first term; `canonical`: the sum is below the modulus
    Bits { of: Aff, out: Vec<Aff>, canonical: bool },
    /// the output is the weighted sum of these bits
    Sum { of: Vec<Aff>, out: Aff },
    /// the output is boolean and says whether the number with these bits exceeds the constant
    Greater { of: Vec<Aff>, k: BigUint, out: Aff },
}
fn weigh(v: &[BigUint]) -> BigUint {
    v.iter().rev().fold(BigUint::zero(), |z, x| z * 2u32 + x)
}
impl Claim {
    fn holds(&self, s: &Sys, m: &[bool], free: &BigUint) -> bool {
        let e = |a: &Aff| s.eval(a, m, free);
        let bit = |x: &BigUint| x.is_zero() || x.is_one();
        match self {
            Claim::Bits { of, out, canonical } => {
                let o: Vec<BigUint> = out.iter().map(e).collect();
                let w = weigh(&o);
                o.iter().all(bit) && &w % &s.p == e(of) && (!canonical || w < s.p)
            }
            Claim::Sum { of, out } => weigh(&of.iter().map(e).collect::<Vec<_>>()) % &s.p == e(out),
            Claim::Greater { of, k, out } => {
                let o = e(out);
                bit(&o) && o.is_one() == (weigh(&of.iter().map(e).collect::<Vec<_>>()) > *k)
            }
        }
    }
}
fn two(i: usize, p: &BigUint) -> BigUint {
    (BigUint::one() << i) % p
}
/// decides the claim for every assignment; reports through the engine's obligations
pub fn settle(s: &mut Sys, claim: &Claim) {
    if let Err(m) = s.solve() {
        return note(format!("not decided at full size: {}", m));
    }
    s.header();
    let free = BigUint::from(2u32);
    // negated parts of the claim; None: a part depends on a wire nothing determines
    let mut neg: Vec<Option<String>> = vec![];
    let p = s.p.clone();
    let part = |s: &mut Sys, a: &Aff| -> Option<String> {
        let a = s.reduce(a);
        if Sys::wire_in(&a).is_some() {
            None
        } else {
            Some(format!("(not {})", s.zero(&a)))
        }
    };
    match claim {
        Claim::Bits { of, out, canonical } => {
            let mut d = of.clone();
            for (i, o) in out.iter().enumerate() {
                d = s.addmul(&d, o, &(&p - two(i, &p)));
                neg.push(if Sys::wire_in(&s.reduce(o)).is_some() { None } else { Some(s.not_bool(o)) });
            }
            neg.push(part(s, &d));
            if *canonical {
                let b: Option<Vec<String>> = out.iter().map(|o| s.truth(o)).collect();
                neg.push(b.map(|b| s.greater(&b, &(&p - BigUint::one()))));
            }
        }
        Claim::Sum { of, out } => {
            let mut d = out.clone();
            for (i, o) in of.iter().enumerate() {
                d = s.addmul(&d, o, &(&p - two(i, &p)));
            }
            neg.push(part(s, &d));
        }
        Claim::Greater { of, k, out } => {
            neg.push(if Sys::wire_in(&s.reduce(out)).is_some() { None } else { Some(s.not_bool(out)) });
            let b: Option<Vec<String>> = of.iter().map(|o| s.truth(o)).collect();
            let r = s.truth(out);
            neg.push(match (b, r) {
                (Some(b), Some(r)) => {
                    let g = s.greater(&b, k);
                    Some(format!("(distinct {} {})", g, r))
                }
                _ => None,
            });
        }
    }
    // the constraints alone are satisfiable (and what a solution looks like)
    match s.ask("true") {
        Ok(Some(m)) => {
            if !s.satisfied(&m, &free) {
                return note("the reduced constraints are weaker than the recorded ones".into());
            }
            cover("solutions of the full-size circuit", Fm::T);
            if neg.iter().any(|x| x.is_none()) && !claim.holds(s, &m, &free) {
                return check("every solution of the full-size circuit is as stated (a wire is not determined)", Fm::F);
            }
        }
        Ok(None) => return check("the full-size circuit has a solution", Fm::F),
        Err(m) => return note(format!("not decided at full size: {}", m)),
    }
    let neg: Vec<String> = neg.into_iter().flatten().filter(|x| x != "false").collect();
    // `zero` definitions of the claim stay in the script, those of the constraints are added per query
    let goal = if neg.is_empty() { "false".to_string() } else { format!("(or {} false)", neg.join(" ")) };
    match s.ask(&goal) {
        Ok(None) => check("every solution of the full-size circuit is as stated", Fm::T),
        Ok(Some(m)) => {
            if !s.satisfied(&m, &free) {
                return note("the reduced constraints are weaker than the recorded ones".into());
            }
            if claim.holds(s, &m, &free) {
                return note("the encoded claim is stronger than the claim".into());
            }
            check(format!("every solution of the full-size circuit is as stated (solution: {})", m.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>()), Fm::F)
        }
        Err(m) => note(format!("not decided at full size: {}", m)),
    }
}
fn note(m: String) {
    with(|c| c.notes.insert(m.clone(), m));
}
