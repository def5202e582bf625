//! Symbolic-execution engine.
//!
//! The code under test (fawkes-crypto's own generic functions, compiled from /repo) is
//! instantiated at the field type `field::S<P>`, whose values are nodes of an expression DAG
//! over GF(P).  Every data-dependent branch of the code under test (`==`, `is_zero`, `is_odd`,
//! `sqrt`, bit extraction) ends up in `decide*` below, which forks the path: a path is a vector
//! of decisions, and the program is re-executed from the start for each one.  Feasibility of a
//! branch and every obligation are decided by an SMT solver over all values of the variables.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type Id = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub p: u64,
    pub k: u64,
    pub t: Vec<(Id, u64)>, // (atom, coefficient), sorted by atom, coefficients in 1..p
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var(String),
    Prod(Id, Id),
    Inv(Id),
    Sqrt(Id),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cond {
    Zero(Id),
    Odd(Id),
    Square(Id), // zero or quadratic residue
    Val(Id, u64),
}

/// Boolean formulas, built without forking.
#[derive(Clone, Debug)]
pub enum Fm {
    T,
    F,
    C(Cond),
    Lt(Id, u64),
    Not(Rc<Fm>),
    And(Vec<Fm>),
    Or(Vec<Fm>),
}

impl Fm {
    pub fn not(self) -> Fm {
        match self {
            Fm::T => Fm::F,
            Fm::F => Fm::T,
            Fm::Not(x) => (*x).clone(),
            x => Fm::Not(Rc::new(x)),
        }
    }
    pub fn and(v: Vec<Fm>) -> Fm {
        let mut r = vec![];
        for x in v {
            match x {
                Fm::T => {}
                Fm::F => return Fm::F,
                Fm::And(y) => r.extend(y),
                x => r.push(x),
            }
        }
        match r.len() {
            0 => Fm::T,
            1 => r.pop().unwrap(),
            _ => Fm::And(r),
        }
    }
    pub fn or(v: Vec<Fm>) -> Fm {
        let mut r = vec![];
        for x in v {
            match x {
                Fm::F => {}
                Fm::T => return Fm::T,
                Fm::Or(y) => r.extend(y),
                x => r.push(x),
            }
        }
        match r.len() {
            0 => Fm::F,
            1 => r.pop().unwrap(),
            _ => Fm::Or(r),
        }
    }
    pub fn implies(a: Fm, b: Fm) -> Fm {
        Fm::or(vec![a.not(), b])
    }
    pub fn iff(a: Fm, b: Fm) -> Fm {
        Fm::and(vec![
            Fm::implies(a.clone(), b.clone()),
            Fm::implies(b, a),
        ])
    }
    pub fn bool(b: bool) -> Fm {
        if b {
            Fm::T
        } else {
            Fm::F
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Dec {
    Bool(bool),
    Val(u64),
    /// explore values not in the listed set
    NotVals(Vec<u64>),
}

pub enum Mode {
    Sym,
    Conc(BTreeMap<String, u64>),
}

/// An assertion, with how much of the path and of the assumptions was in force when it was made.
#[derive(Clone, Debug)]
pub struct Obligation {
    pub label: String,
    pub fm: Fm,
    pub n_path: usize,
    pub n_assume: usize,
}

pub struct Ctx {
    pub mode: Mode,
    pub root_hi: bool,
    pub small_literals: bool,
    pub symbolic_rand: bool,
    /// random field elements are made from the generator's 64-bit words by this function
    pub rand_hook: Option<fn(u64, u64) -> Id>,
    /// products are multiplied out
    pub expand: bool,
    atoms: Vec<(Atom, u64)>,
    atom_ix: HashMap<(Atom, u64), Id>,
    nodes: Vec<Lin>,
    node_ix: HashMap<Lin, Id>,
    pub path: Vec<(Cond, bool)>,
    pub assumes: Vec<Fm>,
    prefix: Vec<Dec>,
    trace: Vec<Dec>,
    pub forks: Vec<Vec<Dec>>,
    pub obligations: Vec<Obligation>,
    pub covers: Vec<Obligation>,
    pub cover_hits: Vec<String>,
    pub trivial: u64,
    pub panic_seen: Option<String>,
    pub failures: Vec<String>, // failed obligations in Conc mode
    pub conc_assume_failed: bool,
    pub drawn: BTreeMap<String, u64>,
    known: HashMap<Id, u64>,
    pow_of: HashMap<Id, (Id, u64)>,
    solver: Option<Solver>,
    pub stats: Stats,
    pub timeout_ms: u64,
    pub unknown: Option<String>,
    fresh: u64,
    pub notes: BTreeMap<String, String>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
    pub lemmas: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.lemmas += o.lemmas;
        self.solver_s += o.solver_s;
        if o.max_query_s > self.max_query_s {
            self.max_query_s = o.max_query_s;
        }
    }
}

pub struct PathAbort; // infeasible path / assumption violated
pub struct SolverUnknown;

thread_local! {
    pub static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no symbolic context")))
}

/// concrete runs with this key draw the values they were not given (used only to look for a
/// failing input where the solver gave no answer)
pub const SEED_KEY: &str = "seed!";
fn guess(name: &str, seed: u64) -> u64 {
    let mut h = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xcbf29ce484222325;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^= h >> 32;
    h >> 1
}
pub fn pow_mod(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1u64;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = (r as u128 * b as u128 % p as u128) as u64;
        }
        b = (b as u128 * b as u128 % p as u128) as u64;
        e >>= 1;
    }
    r
}
fn mulm(a: u64, b: u64, p: u64) -> u64 {
    (a as u128 * b as u128 % p as u128) as u64
}
pub fn inv_mod(a: u64, p: u64) -> u64 {
    pow_mod(a, p - 2, p)
}
pub fn is_square(a: u64, p: u64) -> bool {
    a == 0 || pow_mod(a, (p - 1) / 2, p) == 1
}
/// The canonical root this model of the field returns: the smaller one, or the larger one.
pub fn sqrt_mod(a: u64, p: u64, hi: bool) -> u64 {
    for r in 0..=(p / 2) {
        if mulm(r, r, p) == a {
            return if hi && r != 0 { p - r } else { r };
        }
    }
    panic!("sqrt_mod of a non-square")
}

impl Ctx {
    pub fn new(mode: Mode, prefix: Vec<Dec>, solver: Option<Solver>, timeout_ms: u64, root_hi: bool) -> Ctx {
        Ctx {
            mode,
            root_hi,
            small_literals: false,
            symbolic_rand: false,
            rand_hook: None,
            expand: false,
            atoms: vec![],
            atom_ix: HashMap::new(),
            nodes: vec![],
            node_ix: HashMap::new(),
            path: vec![],
            assumes: vec![],
            prefix,
            trace: vec![],
            forks: vec![],
            obligations: vec![],
            covers: vec![],
            cover_hits: vec![],
            trivial: 0,
            panic_seen: None,
            failures: vec![],
            conc_assume_failed: false,
            drawn: BTreeMap::new(),
            known: HashMap::new(),
            pow_of: HashMap::new(),
            solver,
            stats: Stats::default(),
            timeout_ms,
            unknown: None,
            fresh: 0,
            notes: BTreeMap::new(),
        }
    }
    pub fn n_trace(&self) -> usize {
        self.trace.len()
    }
    pub fn take_solver(&mut self) -> Option<Solver> {
        self.solver.take()
    }
    pub fn node(&mut self, l: Lin) -> Id {
        if let Some(i) = self.node_ix.get(&l) {
            return *i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(l.clone());
        self.node_ix.insert(l, i);
        i
    }
    fn atom(&mut self, a: Atom, p: u64) -> Id {
        let key = (a, p);
        if let Some(i) = self.atom_ix.get(&key) {
            return *i;
        }
        let i = self.atoms.len() as Id;
        self.atoms.push(key.clone());
        self.atom_ix.insert(key, i);
        i
    }
    fn atom_node(&mut self, a: Atom, p: u64, coef: u64) -> Id {
        let at = self.atom(a, p);
        self.node(Lin { p, k: 0, t: vec![(at, coef)] })
    }
    pub fn konst(&mut self, k: u64, p: u64) -> Id {
        self.node(Lin { p, k: k % p, t: vec![] })
    }
    pub fn as_const(&self, n: Id) -> Option<u64> {
        let l = &self.nodes[n as usize];
        if l.t.is_empty() {
            Some(l.k)
        } else {
            None
        }
    }
    pub fn modulus(&self, n: Id) -> u64 {
        self.nodes[n as usize].p
    }
    pub fn var(&mut self, name: &str, p: u64) -> Id {
        if let Mode::Conc(m) = &self.mode {
            let v = match m.get(name) {
                Some(v) => *v,
                None => match m.get(SEED_KEY) {
                    Some(seed) => {
                        let v = guess(name, *seed) % p;
                        self.drawn.insert(name.to_string(), v);
                        v
                    }
                    None => 0,
                },
            };
            return self.konst(v, p);
        }
        self.atom_node(Atom::Var(name.to_string()), p, 1)
    }
    pub fn fresh_name(&mut self, pre: &str) -> String {
        self.fresh += 1;
        format!("{}!{}", pre, self.fresh)
    }
    /// a + c*b
    pub fn addmul(&mut self, a: Id, b: Id, c: u64) -> Id {
        let (la, lb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        let p = la.p;
        assert!(p == lb.p);
        let k = (la.k + mulm(lb.k, c, p)) % p;
        let mut t = Vec::with_capacity(la.t.len() + lb.t.len());
        let (mut i, mut j) = (0, 0);
        while i < la.t.len() || j < lb.t.len() {
            if j == lb.t.len() || (i < la.t.len() && la.t[i].0 < lb.t[j].0) {
                t.push(la.t[i]);
                i += 1;
            } else if i == la.t.len() || lb.t[j].0 < la.t[i].0 {
                let x = mulm(lb.t[j].1, c, p);
                if x != 0 {
                    t.push((lb.t[j].0, x));
                }
                j += 1;
            } else {
                let x = (la.t[i].1 + mulm(lb.t[j].1, c, p)) % p;
                if x != 0 {
                    t.push((la.t[i].0, x));
                }
                i += 1;
                j += 1;
            }
        }
        self.node(Lin { p, k, t })
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        self.addmul(a, b, 1)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let p = self.modulus(a);
        self.addmul(a, b, p - 1)
    }
    pub fn scale(&mut self, a: Id, c: u64) -> Id {
        let p = self.modulus(a);
        let z = self.konst(0, p);
        self.addmul(z, a, c)
    }
    /// normalise to leading coefficient 1 ; returns (coef, normalised)
    fn monic(&mut self, a: Id) -> (u64, Id) {
        let l = &self.nodes[a as usize];
        let p = l.p;
        let c = l.t[0].1;
        if c == 1 {
            return (1, a);
        }
        let ci = inv_mod(c, p);
        (c, self.scale(a, ci))
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        if let Some(c) = self.as_const(a) {
            return self.scale(b, c);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(a, c);
        }
        let p = self.modulus(a);
        assert!(p == self.modulus(b));
        if self.expand {
            return self.mul_out(a, b);
        }
        let (ca, na) = self.monic(a);
        let (cb, nb) = self.monic(b);
        // powers have one form, however they are computed
        let ((ba, ea), (bb, eb)) = (self.as_power(na), self.as_power(nb));
        if ba == bb && ea + eb < 1 << 20 {
            let n = self.power(ba, ea + eb);
            return self.scale(n, mulm(ca, cb, p));
        }
        let (x, y) = if na <= nb { (na, nb) } else { (nb, na) };
        self.atom_node(Atom::Prod(x, y), p, mulm(ca, cb, p))
    }
    fn as_power(&self, n: Id) -> (Id, u64) {
        let l = &self.nodes[n as usize];
        if l.k == 0 && l.t.len() == 1 && l.t[0].1 == 1 {
            if let Some(r) = self.pow_of.get(&l.t[0].0) {
                return *r;
            }
        }
        (n, 1)
    }
    fn power(&mut self, base: Id, n: u64) -> Id {
        if n == 1 {
            return base;
        }
        let (x, y) = if n % 2 == 0 {
            let h = self.power(base, n / 2);
            (h, h)
        } else {
            let h = self.power(base, n - 1);
            (h.min(base), h.max(base))
        };
        let p = self.modulus(base);
        let at = self.atom(Atom::Prod(x, y), p);
        self.pow_of.insert(at, (base, n));
        self.node(Lin { p, k: 0, t: vec![(at, 1)] })
    }
    /// the factors of a monomial
    fn factors(&self, at: Id, out: &mut Vec<Id>) {
        if let (Atom::Prod(x, y), _) = &self.atoms[at as usize] {
            let (lx, ly) = (&self.nodes[*x as usize], &self.nodes[*y as usize]);
            if lx.k == 0 && ly.k == 0 && lx.t.len() == 1 && ly.t.len() == 1 && lx.t[0].1 == 1 && ly.t[0].1 == 1 {
                self.factors(lx.t[0].0, out);
                self.factors(ly.t[0].0, out);
                return;
            }
        }
        out.push(at)
    }
    fn mul_out(&mut self, a: Id, b: Id) -> Id {
        let (la, lb) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone());
        let p = la.p;
        let mut r = self.konst(mulm(la.k, lb.k, p), p);
        let (pa, pb) = (Lin { k: 0, ..la.clone() }, Lin { k: 0, ..lb.clone() });
        let (na, nb) = (self.node(pa), self.node(pb));
        r = self.addmul(r, na, lb.k);
        r = self.addmul(r, nb, la.k);
        for (x, cx) in &la.t {
            for (y, cy) in &lb.t {
                let mut f = vec![];
                self.factors(*x, &mut f);
                self.factors(*y, &mut f);
                f.sort();
                let mut m = self.node(Lin { p, k: 0, t: vec![(f[0], 1)] });
                for g in &f[1..] {
                    let n = self.node(Lin { p, k: 0, t: vec![(*g, 1)] });
                    let (u, v) = if m <= n { (m, n) } else { (n, m) };
                    m = self.atom_node(Atom::Prod(u, v), p, 1);
                }
                r = self.addmul(r, m, mulm(*cx, *cy, p));
            }
        }
        r
    }
    pub fn inv_nz(&mut self, a: Id) -> Id {
        let p = self.modulus(a);
        if let Some(c) = self.as_const(a) {
            return self.konst(inv_mod(c, p), p);
        }
        let (c, n) = self.monic(a);
        self.atom_node(Atom::Inv(n), p, inv_mod(c, p))
    }
    pub fn sqrt_sq(&mut self, a: Id) -> Id {
        let p = self.modulus(a);
        if let Some(c) = self.as_const(a) {
            let hi = self.root_hi;
            return self.konst(sqrt_mod(c, p, hi), p);
        }
        self.atom_node(Atom::Sqrt(a), p, 1)
    }

    pub fn norm_cond(&mut self, c: Cond) -> Cond {
        match c {
            Cond::Zero(n) if self.as_const(n).is_none() => Cond::Zero(self.monic(n).1),
            c => c,
        }
    }
    pub fn eval_cond(&self, c: &Cond) -> Option<bool> {
        match c {
            Cond::Zero(n) => self.as_const(*n).map(|v| v == 0),
            Cond::Odd(n) => self.as_const(*n).map(|v| v & 1 == 1),
            Cond::Square(n) => {
                let p = self.modulus(*n);
                self.as_const(*n).map(|v| is_square(v, p))
            }
            Cond::Val(n, x) => self.as_const(*n).map(|v| v == *x),
        }
    }
    pub fn eval_fm(&self, f: &Fm) -> Option<bool> {
        match f {
            Fm::T => Some(true),
            Fm::F => Some(false),
            Fm::C(c) => self.eval_cond(c),
            Fm::Lt(n, b) => self.as_const(*n).map(|v| v < *b),
            Fm::Not(x) => self.eval_fm(x).map(|b| !b),
            Fm::And(v) => {
                let mut all = true;
                for x in v {
                    match self.eval_fm(x) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            Fm::Or(v) => {
                let mut all = true;
                for x in v {
                    match self.eval_fm(x) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(false)
                } else {
                    None
                }
            }
        }
    }

    // ---- SMT-LIB encoding -------------------------------------------------------------
    fn base_formulas(&self, n_path: usize, n_assume: usize) -> Vec<Fm> {
        let mut v: Vec<Fm> = self.assumes[..n_assume].to_vec();
        for (c, b) in &self.path[..n_path] {
            let f = Fm::C(c.clone());
            v.push(if *b { f } else { f.not() });
        }
        v
    }

    /// Ask the solver whether path ∧ assumptions ∧ extra is satisfiable.
    pub fn query(&mut self, extra: &[Fm], want_model: bool) -> Sat {
        let (a, b) = (self.path.len(), self.assumes.len());
        self.query_at(a, b, extra, want_model)
    }
    /// the same question put to another solver
    pub fn cross(&mut self, sv: &mut Solver, n_path: usize, n_assume: usize, extra: &[Fm]) -> Sat {
        let mut fs = self.base_formulas(n_path, n_assume);
        fs.extend(extra.iter().cloned());
        let mut script = String::new();
        encode(self, &fs, &mut script);
        let t0 = Instant::now();
        let r = sv.check(&script, 20_000, None);
        self.stats.solver_s += t0.elapsed().as_secs_f64();
        r
    }
    pub fn query_at(&mut self, n_path: usize, n_assume: usize, extra: &[Fm], want_model: bool) -> Sat {
        let mut fs = self.base_formulas(n_path, n_assume);
        fs.extend(extra.iter().cloned());
        let mut script = String::new();
        let vars = encode(self, &fs, &mut script);
        let t0 = Instant::now();
        let tmo = self.timeout_ms;
        if let Ok(dir) = std::env::var("SYMX_DUMP") {
            static N: AtomicU64 = AtomicU64::new(0);
            let n = N.fetch_add(1, Ordering::Relaxed);
            let _ = std::fs::write(format!("{}/q{}.smt2", dir, n), format!("{}(check-sat)\n", script));
        }
        let s = self.solver.as_mut().expect("no solver");
        let r = s.check(&script, tmo, if want_model { Some(&vars) } else { None });
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.solver_s += dt;
        if dt > self.stats.max_query_s {
            self.stats.max_query_s = dt;
        }
        match &r {
            Sat::Sat(_) => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown(_) => self.stats.unknown += 1,
        }
        r
    }
}

pub enum Sat {
    Sat(BTreeMap<String, u64>),
    Unsat,
    Unknown(String),
}

fn bits(mut x: u128) -> u32 {
    let mut n = 0;
    while x > 0 {
        n += 1;
        x >>= 1;
    }
    n.max(1)
}

struct Enc<'a> {
    c: &'a Ctx,
    out: &'a mut String,
    nodes: BTreeSet<Id>,
    atoms: BTreeSet<Id>,
    vars: Vec<(String, String)>, // (smt name, variable name)
    sqrts: Vec<Id>,
}

fn w(p: u64) -> u32 {
    bits(p as u128)
}

impl<'a> Enc<'a> {
    fn node(&mut self, n: Id) -> String {
        let l = self.c.nodes[n as usize].clone();
        let wp = w(l.p);
        if l.t.is_empty() {
            return format!("(_ bv{} {})", l.k, wp);
        }
        if l.t.len() == 1 && l.t[0].1 == 1 && l.k == 0 {
            return self.atom(l.t[0].0);
        }
        if self.nodes.insert(n) {
            // signed small coefficients: sum(c_i a_i) + k + offset, offset a multiple of p
            let mut hi: u128 = l.k as u128;
            let mut neg: u128 = 0;
            for (_, c) in &l.t {
                if *c > l.p / 2 {
                    neg += (l.p - c) as u128 * (l.p - 1) as u128;
                } else {
                    hi += *c as u128 * (l.p - 1) as u128;
                }
            }
            let off = (neg + l.p as u128 - 1) / l.p as u128 * l.p as u128;
            let ww = bits(hi + off).max(wp + 1);
            let mut s = format!("(_ bv{} {})", l.k as u128 + off, ww);
            let mut parts = vec![];
            for (a, c) in &l.t {
                let x = self.atom(*a);
                let xe = format!("((_ zero_extend {}) {})", ww - wp, x);
                let (sgn, cc) = if *c > l.p / 2 { (true, l.p - c) } else { (false, *c) };
                let term = if cc == 1 {
                    xe
                } else {
                    format!("(bvmul {} (_ bv{} {}))", xe, cc, ww)
                };
                parts.push((sgn, term));
            }
            for (sgn, t) in parts {
                s = if sgn {
                    format!("(bvsub {} {})", s, t)
                } else {
                    format!("(bvadd {} {})", s, t)
                };
            }
            let bound = hi + off;
            let m = mod_p(&s, ww, l.p, bound);
            self.out
                .push_str(&format!("(define-fun n{} () (_ BitVec {}) {})\n", n, wp, m));
        }
        format!("n{}", n)
    }
    fn atom(&mut self, a: Id) -> String {
        let (at, p) = self.c.atoms[a as usize].clone();
        let wp = w(p);
        if !self.atoms.contains(&a) {
            match at {
                Atom::Var(name) => {
                    self.out.push_str(&format!(
                        "(declare-const a{0} (_ BitVec {1}))\n(assert (bvult a{0} (_ bv{2} {1})))\n",
                        a, wp, p
                    ));
                    self.vars.push((format!("a{}", a), name));
                }
                Atom::Prod(x, y) => {
                    let sx = self.node(x);
                    let sy = self.node(y);
                    let e = format!(
                        "(bvmul ((_ zero_extend {0}) {1}) ((_ zero_extend {0}) {2}))",
                        wp, sx, sy
                    );
                    let m = mod_p(&e, 2 * wp, p, (p - 1) as u128 * (p - 1) as u128);
                    self.out
                        .push_str(&format!("(define-fun a{} () (_ BitVec {}) {})\n", a, wp, m));
                }
                Atom::Inv(x) => {
                    let sx = self.node(x);
                    let e = format!(
                        "(bvmul ((_ zero_extend {0}) a{1}) ((_ zero_extend {0}) {2}))",
                        wp, a, sx
                    );
                    let m = mod_p(&e, 2 * wp, p, (p - 1) as u128 * (p - 1) as u128);
                    self.out.push_str(&format!(
                        "(declare-const a{0} (_ BitVec {1}))\n(assert (bvult a{0} (_ bv{2} {1})))\n(assert (= {3} (_ bv1 {1})))\n",
                        a, wp, p, m
                    ));
                }
                Atom::Sqrt(x) => {
                    let sx = self.node(x);
                    let e = format!(
                        "(bvmul ((_ zero_extend {0}) a{1}) ((_ zero_extend {0}) a{1}))",
                        wp, a
                    );
                    let m = mod_p(&e, 2 * wp, p, (p - 1) as u128 * (p - 1) as u128);
                    let rng = if self.c.root_hi {
                        format!("(or (= a{0} (_ bv0 {1})) (bvugt a{0} (_ bv{2} {1})))", a, wp, p / 2)
                    } else {
                        format!("(bvule a{0} (_ bv{2} {1}))", a, wp, p / 2)
                    };
                    self.out.push_str(&format!(
                        "(declare-const a{0} (_ BitVec {1}))\n(assert (bvult a{0} (_ bv{2} {1})))\n(assert (= {3} {4}))\n(assert {5})\n",
                        a, wp, p, m, sx, rng
                    ));
                    self.sqrts.push(a);
                }
            }
            self.atoms.insert(a);
        }
        format!("a{}", a)
    }
    fn cond(&mut self, c: &Cond) -> String {
        match c {
            Cond::Zero(n) => {
                // x - y = 0 reads better (and solves better) as x = y, but the normal form is a
                // single linear node; keep it.
                let p = self.c.modulus(*n);
                let s = self.node(*n);
                format!("(= {} (_ bv0 {}))", s, w(p))
            }
            Cond::Odd(n) => {
                let s = self.node(*n);
                format!("(= ((_ extract 0 0) {}) (_ bv1 1))", s)
            }
            Cond::Square(n) => {
                let p = self.c.modulus(*n);
                let s = self.node(*n);
                let wp = w(p);
                let v: Vec<String> = (0..p)
                    .filter(|x| is_square(*x, p))
                    .map(|x| format!("(= {} (_ bv{} {}))", s, x, wp))
                    .collect();
                format!("(or {})", v.join(" "))
            }
            Cond::Val(n, x) => {
                let p = self.c.modulus(*n);
                let s = self.node(*n);
                format!("(= {} (_ bv{} {}))", s, x, w(p))
            }
        }
    }
    fn fm(&mut self, f: &Fm) -> String {
        match f {
            Fm::T => "true".into(),
            Fm::F => "false".into(),
            Fm::C(c) => match self.c.eval_cond(c) {
                Some(b) => format!("{}", b),
                None => self.cond(c),
            },
            Fm::Lt(n, b) => {
                let p = self.c.modulus(*n);
                if *b >= p {
                    return "true".into();
                }
                let s = self.node(*n);
                format!("(bvult {} (_ bv{} {}))", s, b, w(p))
            }
            Fm::Not(x) => format!("(not {})", self.fm(x)),
            Fm::And(v) => {
                let s: Vec<String> = v.iter().map(|x| self.fm(x)).collect();
                format!("(and {})", s.join(" "))
            }
            Fm::Or(v) => {
                let s: Vec<String> = v.iter().map(|x| self.fm(x)).collect();
                format!("(or {})", s.join(" "))
            }
        }
    }
}

/// expression of width wp for `e mod p` where `e` has width ww and value <= bound
fn mod_p(e: &str, ww: u32, p: u64, bound: u128) -> String {
    let wp = w(p);
    if bound < p as u128 {
        return format!("((_ extract {} 0) {})", wp - 1, e);
    }
    if bound < 2 * p as u128 {
        return format!(
            "(let ((s {e})) ((_ extract {x} 0) (ite (bvuge s (_ bv{p} {ww})) (bvsub s (_ bv{p} {ww})) s)))",
            e = e, x = wp - 1, p = p, ww = ww
        );
    }
    format!("((_ extract {} 0) (bvurem {} (_ bv{} {})))", wp - 1, e, p, ww)
}

fn encode(c: &Ctx, fs: &[Fm], out: &mut String) -> Vec<(String, String)> {
    let mut body = String::new();
    let mut e = Enc {
        c,
        out: &mut body,
        nodes: BTreeSet::new(),
        atoms: BTreeSet::new(),
        vars: vec![],
        sqrts: vec![],
    };
    let mut asserts = vec![];
    for f in fs {
        asserts.push(e.fm(f));
    }
    let vars = e.vars;
    out.push_str("(set-logic QF_BV)\n");
    out.push_str(&body);
    for a in asserts {
        out.push_str(&format!("(assert {})\n", a));
    }
    vars
}

// ---- solver process -----------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Z3,
    Cvc5,
}
pub struct Solver {
    kind: Kind,
    ch: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Solver {
    pub fn new(kind: Kind) -> Solver {
        let mut cmd = match kind {
            Kind::Z3 => {
                let mut c = Command::new(std::env::var("SYMX_Z3").unwrap_or("z3-new".into()));
                c.args(["-in"]);
                c
            }
            Kind::Cvc5 => {
                let mut c = Command::new("cvc5");
                c.args(["--lang=smt2", "--incremental", "--produce-models", "--bv-sat-solver=cadical"]);
                c
            }
        };
        let mut ch = cmd
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start the SMT solver");
        let inp = ch.stdin.take().unwrap();
        let out = BufReader::new(ch.stdout.take().unwrap());
        Solver { kind, ch, inp, out }
    }
    fn line(&mut self) -> Option<String> {
        let mut s = String::new();
        match self.out.read_line(&mut s) {
            Ok(0) | Err(_) => None,
            Ok(_) => Some(s.trim().to_string()),
        }
    }
    fn restart(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
        *self = Solver::new(self.kind);
    }
    pub fn check(&mut self, script: &str, tmo: u64, vars: Option<&[(String, String)]>) -> Sat {
        let mut msg = String::new();
        match self.kind {
            Kind::Z3 => msg.push_str(&format!("(reset)\n(set-option :timeout {})\n", tmo)),
            Kind::Cvc5 => msg.push_str(&format!(
                "(reset)\n(set-option :produce-models true)\n(set-option :tlimit-per {})\n",
                tmo
            )),
        }
        msg.push_str(script);
        msg.push_str("(check-sat)\n(echo \"done\")\n");
        if self.inp.write_all(msg.as_bytes()).is_err() || self.inp.flush().is_err() {
            self.restart();
            return Sat::Unknown("solver died".into());
        }
        let mut verdict = None;
        let mut err = None;
        loop {
            match self.line() {
                None => {
                    self.restart();
                    return Sat::Unknown("solver died".into());
                }
                Some(l) => {
                    let l2 = l.trim_matches('"');
                    if l2 == "done" {
                        break;
                    }
                    if l.starts_with("(error") {
                        err = Some(l);
                    } else if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
                        verdict = Some(l);
                    }
                }
            }
        }
        if let Some(e) = err {
            self.restart();
            return Sat::Unknown(e);
        }
        match verdict.as_deref() {
            Some("unsat") => Sat::Unsat,
            Some("sat") => {
                let mut m = BTreeMap::new();
                if let Some(vs) = vars {
                    for ch in vs.chunks(200) {
                        let names: Vec<&str> = ch.iter().map(|x| x.0.as_str()).collect();
                        let q = format!("(get-value ({}))\n(echo \"done\")\n", names.join(" "));
                        if self.inp.write_all(q.as_bytes()).is_err() {
                            return Sat::Unknown("solver died".into());
                        }
                        let mut txt = String::new();
                        loop {
                            match self.line() {
                                None => {
                                    self.restart();
                                    return Sat::Unknown("solver died".into());
                                }
                                Some(l) => {
                                    if l.trim_matches('"') == "done" {
                                        break;
                                    }
                                    txt.push_str(&l);
                                    txt.push(' ');
                                }
                            }
                        }
                        parse_values(&txt, ch, &mut m);
                    }
                }
                Sat::Sat(m)
            }
            v => {
                let s = format!("{:?}", v);
                Sat::Unknown(s)
            }
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}

fn parse_values(txt: &str, vars: &[(String, String)], m: &mut BTreeMap<String, u64>) {
    // ((a0 #b0101) (a1 #x3f) ...)
    let toks: Vec<&str> = txt
        .split(|c: char| c.is_whitespace() || c == '(' || c == ')')
        .filter(|s| !s.is_empty())
        .collect();
    let names: HashMap<&str, &str> = vars.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(n) = names.get(toks[i]) {
            let v = toks[i + 1];
            let x = if let Some(b) = v.strip_prefix("#b") {
                u64::from_str_radix(b, 2).ok()
            } else if let Some(h) = v.strip_prefix("#x") {
                u64::from_str_radix(h, 16).ok()
            } else {
                None
            };
            if let Some(x) = x {
                m.insert(n.to_string(), x);
            }
            i += 2;
        } else {
            i += 1;
        }
    }
}

// ---- decisions ------------------------------------------------------------------------------
pub fn abort_unknown(msg: String) -> ! {
    with(|c| c.unknown = Some(msg));
    std::panic::panic_any(SolverUnknown)
}

pub fn abort_path() -> ! {
    std::panic::panic_any(PathAbort)
}

pub fn decide(cond: Cond) -> bool {
    enum R {
        B(bool),
        Abort,
        Unk(String),
    }
    let r = with(|c| {
        let cond = c.norm_cond(cond);
        if let Some(b) = c.eval_cond(&cond) {
            return R::B(b);
        }
        // already on the path?
        for (d, b) in &c.path {
            if *d == cond {
                return R::B(*b);
            }
        }
        let pos = c.trace.len();
        if pos < c.prefix.len() {
            let d = c.prefix[pos].clone();
            let b = match d {
                Dec::Bool(b) => b,
                _ => panic!("decision trace mismatch"),
            };
            c.trace.push(d);
            c.path.push((cond, b));
            return R::B(b);
        }
        let t = c.query(&[Fm::C(cond.clone())], false);
        let f = c.query(&[Fm::C(cond.clone()).not()], false);
        match (t, f) {
            (Sat::Unknown(m), _) | (_, Sat::Unknown(m)) => R::Unk(m),
            (Sat::Unsat, Sat::Unsat) => R::Abort,
            (Sat::Sat(_), Sat::Sat(_)) => {
                let mut alt = c.trace.clone();
                alt.push(Dec::Bool(false));
                c.forks.push(alt);
                c.trace.push(Dec::Bool(true));
                c.path.push((cond, true));
                R::B(true)
            }
            (Sat::Sat(_), _) => {
                c.trace.push(Dec::Bool(true));
                c.path.push((cond, true));
                R::B(true)
            }
            _ => {
                c.trace.push(Dec::Bool(false));
                c.path.push((cond, false));
                R::B(false)
            }
        }
    });
    match r {
        R::B(b) => b,
        R::Abort => abort_path(),
        R::Unk(m) => abort_unknown(format!("branch feasibility: {}", m)),
    }
}

/// Pin a node to a value: the path forks over every feasible value of the node.
pub fn decide_value(n: Id) -> u64 {
    enum R {
        V(u64),
        Abort,
        Unk(String),
    }
    let r = with(|c| {
        if let Some(v) = c.as_const(n) {
            return R::V(v);
        }
        if let Some(v) = c.known.get(&n) {
            return R::V(*v);
        }
        let pos = c.trace.len();
        let mut excl: Vec<u64> = vec![];
        if pos < c.prefix.len() {
            let d = c.prefix[pos].clone();
            match d {
                Dec::Val(v) => {
                    c.trace.push(d);
                    c.path.push((Cond::Val(n, v), true));
                    c.known.insert(n, v);
                    return R::V(v);
                }
                Dec::NotVals(x) => excl = x,
                _ => panic!("decision trace mismatch"),
            }
        }
        // find a feasible value outside `excl`
        let extra: Vec<Fm> = excl.iter().map(|v| Fm::C(Cond::Val(n, *v)).not()).collect();
        let p = c.modulus(n);
        // a helper variable equal to n, so that the model tells the value
        let hv = c.atom_node(Atom::Var("probe!".into()), p, 1);
        let d = c.sub(hv, n);
        let mut ex = extra.clone();
        ex.push(Fm::C(Cond::Zero(d)));
        match c.query(&ex, true) {
            Sat::Unknown(m) => R::Unk(m),
            Sat::Unsat => R::Abort,
            Sat::Sat(m) => {
                let v = m["probe!"];
                let mut alt = c.trace.clone();
                let mut x = excl.clone();
                x.push(v);
                alt.push(Dec::NotVals(x));
                c.forks.push(alt);
                c.trace.push(Dec::Val(v));
                c.path.push((Cond::Val(n, v), true));
                c.known.insert(n, v);
                R::V(v)
            }
        }
    });
    match r {
        R::V(v) => v,
        R::Abort => abort_path(),
        R::Unk(m) => abort_unknown(format!("value fork: {}", m)),
    }
}

// ---- case interface -------------------------------------------------------------------------
pub fn assume(f: Fm) {
    let r = with(|c| match c.eval_fm(&f) {
        Some(true) => true,
        Some(false) => {
            c.conc_assume_failed = true;
            false
        }
        None => {
            c.assumes.push(f);
            true
        }
    });
    if !r {
        abort_path()
    }
}

pub fn check(label: impl Into<String>, f: Fm) {
    let label = label.into();
    with(|c| match c.mode {
        Mode::Conc(_) => match c.eval_fm(&f) {
            Some(true) => {}
            Some(false) => c.failures.push(label),
            None => c.failures.push(format!("{} (not concrete)", label)),
        },
        Mode::Sym => {
            // made before the point where this path forked off: the parent path decided it
            if c.trace.len() < c.prefix.len() {
                return;
            }
            if let Some(true) = c.eval_fm(&f) {
                c.trivial += 1;
                return;
            }
            let (n_path, n_assume) = (c.path.len(), c.assumes.len());
            c.obligations.push(Obligation { label, fm: f, n_path, n_assume })
        }
    })
}

/// a reachability witness: `f` must be satisfiable on some path of the case
pub fn cover(label: impl Into<String>, f: Fm) {
    let label = label.into();
    with(|c| match c.mode {
        Mode::Sym => {
            let (n_path, n_assume) = (c.path.len(), c.assumes.len());
            c.covers.push(Obligation { label, fm: f, n_path, n_assume })
        }
        Mode::Conc(_) => {
            if let Some(true) = c.eval_fm(&f) {
                c.cover_hits.push(label)
            }
        }
    })
}

pub fn is_conc() -> bool {
    with(|c| matches!(c.mode, Mode::Conc(_)))
}

/// Run code under test; a panic inside it is reported as Err(message).
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.is::<PathAbort>() || e.is::<SolverUnknown>() {
                std::panic::resume_unwind(e)
            }
            Err(panic_msg(&e))
        }
    }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn elapsed(t: Instant) -> Duration {
    t.elapsed()
}

/// For scalar fields with fewer than nine elements: the code writes literals such as 8 and
/// expects them to be field elements; with this on, an integer up to 8 means its residue.
pub fn small_literals() {
    with(|c| c.small_literals = true)
}

/// in a concrete replay: does the model give this variable a value?  (true in symbolic mode)
pub fn conc_has(name: &str) -> bool {
    with(|c| match &c.mode {
        Mode::Conc(m) => m.contains_key(name),
        Mode::Sym => true,
    })
}
/// the formulas contradict each other on this path (a lemma query; unknown counts as no)
pub fn entails_false(fs: &[Fm]) -> bool {
    with(|c| {
        if fs.iter().any(|f| c.eval_fm(f) == Some(false)) {
            return true;
        }
        let old = c.timeout_ms;
        c.timeout_ms = 20_000;
        let r = c.query(fs, false);
        c.timeout_ms = old;
        c.stats.lemmas += 1;
        matches!(r, Sat::Unsat)
    })
}

/// products are multiplied out from here on
pub fn expand_products() {
    with(|c| c.expand = true)
}
/// every random field element drawn by the code under test is a fresh symbolic variable
pub fn symbolic_rand() {
    with(|c| c.symbolic_rand = true)
}
