//! A recording constraint system: the code under test allocates wires and emits constraints
//! into it; afterwards the constraint set is a first-class object the checks reason about.
use crate::engine::*;
use crate::field::S;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::native::num::Num;
use std::cell::RefCell;
use std::rc::Rc;

pub type N<const P: u64> = Num<S<P>>;
pub type Lc<const P: u64> = Vec<(Index, N<P>)>;

#[derive(Default)]
pub struct Inner<const P: u64> {
    pub inputs: Vec<Option<N<P>>>, // inputs[i] is wire Input(i+1)
    pub aux: Vec<Option<N<P>>>,
    pub cons: Vec<[Lc<P>; 3]>,
    pub vals: Vec<[Option<N<P>>; 3]>,
}

#[derive(Clone, Default)]
pub struct RecCS<const P: u64>(pub Rc<RefCell<Inner<P>>>);

pub fn lc_of<const P: u64>(n: &CNum<RecCS<P>>) -> Lc<P> {
    n.lc.iter().cloned().collect()
}

impl<const P: u64> std::fmt::Debug for RecCS<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "RecCS")
    }
}

impl<const P: u64> ConstraintSystem for RecCS<P> {
    type F = S<P>;
    fn alloc(&self, value: Option<N<P>>) -> Index {
        let mut i = self.0.borrow_mut();
        i.aux.push(value);
        Index::Aux(i.aux.len() - 1)
    }
    fn alloc_input(&self, value: Option<N<P>>) -> Index {
        let mut i = self.0.borrow_mut();
        i.inputs.push(value);
        Index::Input(i.inputs.len())
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        let mut i = self.0.borrow_mut();
        i.cons.push([lc_of(a), lc_of(b), lc_of(c)]);
        i.vals.push([a.value, b.value, c.value]);
    }
}

/// assignment of field values to wires
pub struct Asg<const P: u64> {
    pub inputs: Vec<S<P>>,
    pub aux: Vec<S<P>>,
}

impl<const P: u64> Asg<P> {
    pub fn wire(&self, i: Index) -> S<P> {
        match i {
            Index::Input(0) => S::k(1),
            Index::Input(n) => self.inputs[n - 1],
            Index::Aux(n) => self.aux[n],
        }
    }
    pub fn lc(&self, l: &Lc<P>) -> S<P> {
        let mut acc = S::k(0);
        for (i, c) in l {
            acc = acc.a(&self.wire(*i).m(&c.0));
        }
        acc
    }
    pub fn num(&self, n: &CNum<RecCS<P>>) -> S<P> {
        self.lc(&lc_of(n))
    }
}

impl<const P: u64> RecCS<P> {
    pub fn new() -> Self {
        RecCS(Rc::new(RefCell::new(Inner { inputs: vec![], aux: vec![], cons: vec![], vals: vec![] })))
    }
    pub fn n_cons(&self) -> usize {
        self.0.borrow().cons.len()
    }
    pub fn n_aux(&self) -> usize {
        self.0.borrow().aux.len()
    }
    pub fn n_in(&self) -> usize {
        self.0.borrow().inputs.len()
    }
    /// the values the code under test itself assigned
    pub fn honest(&self) -> Option<Asg<P>> {
        let i = self.0.borrow();
        let inputs: Option<Vec<_>> = i.inputs.iter().map(|x| x.map(|n| n.0)).collect();
        let aux: Option<Vec<_>> = i.aux.iter().map(|x| x.map(|n| n.0)).collect();
        Some(Asg { inputs: inputs?, aux: aux? })
    }
    /// Adversarial assignment: the wires whose honest value the caller fixes (`given`, in order
    /// of allocation: the first aux wires) keep that value, every other wire is arbitrary.
    /// A wire that a constraint determines outright (it occurs linearly, with a nonzero constant
    /// coefficient, and nothing else in that constraint is undetermined) is replaced by that
    /// value; every other wire is a fresh variable.  The set of satisfying assignments is the same.
    pub fn adversary(&self, tag: &str, given: &[S<P>]) -> Asg<P> {
        self.adversary_guided(tag, given, None)
    }
    /// As `adversary`; where the solver shows that the constraints leave a wire no value but the
    /// one in `guess`, the wire is replaced by that value (a proved lemma, not an assumption).
    pub fn adversary_guided(&self, tag: &str, given: &[S<P>], guess: Option<&Asg<P>>) -> Asg<P> {
        let mut fixed: std::collections::BTreeMap<Index, S<P>> = Default::default();
        let mut tried: std::collections::BTreeSet<Index> = Default::default();
        loop {
            match self.adversary_step(tag, given, guess, &fixed, &mut tried) {
                Ok(a) => return a,
                Err((w, v)) => {
                    fixed.insert(w, v);
                }
            }
        }
    }
    fn fresh(&self, tag: &str, w: Index, guess: Option<&Asg<P>>) -> S<P> {
        let name = match w {
            Index::Input(n) => format!("{}in{}", tag, n - 1),
            Index::Aux(n) => format!("{}w{}", tag, n),
        };
        if let Some(g) = guess {
            if !conc_has(&name) {
                return g.wire(w);
            }
        }
        S::var(&name)
    }
    fn adversary_step(
        &self,
        tag: &str,
        given: &[S<P>],
        guess: Option<&Asg<P>>,
        fixed: &std::collections::BTreeMap<Index, S<P>>,
        tried: &mut std::collections::BTreeSet<Index>,
    ) -> Result<Asg<P>, (Index, S<P>)> {
        let i = self.0.borrow();
        let mut inp: Vec<Option<S<P>>> = vec![None; i.inputs.len()];
        let mut aux: Vec<Option<S<P>>> = (0..i.aux.len()).map(|k| given.get(k).cloned()).collect();
        for (w, v) in fixed {
            match w {
                Index::Input(n) => inp[n - 1] = Some(*v),
                Index::Aux(n) => aux[*n] = Some(*v),
            }
        }
        let mut open: Vec<usize> = (0..i.cons.len()).collect();
        fn split<const P: u64>(l: &Lc<P>, inp: &[Option<S<P>>], aux: &[Option<S<P>>]) -> (S<P>, Vec<(Index, S<P>)>) {
            let mut acc = S::k(0);
            let mut u = vec![];
            for (i, c) in l {
                let w = match i {
                    Index::Input(0) => Some(S::k(1)),
                    Index::Input(n) => inp[n - 1],
                    Index::Aux(n) => aux[*n],
                };
                match w {
                    Some(v) => acc = acc.a(&v.m(&c.0)),
                    None => u.push((*i, c.0)),
                }
            }
            (acc, u)
        }
        let mut pending: Vec<(Index, S<P>)> = vec![];
        loop {
            let mut progress = false;
            let mut stuck: Option<Vec<Index>> = None;
            let mut rest = vec![];
            for k in open.drain(..) {
                let [a, b, c] = &i.cons[k];
                let (ka, ua) = split(a, &inp, &aux);
                let (kb, ub) = split(b, &inp, &aux);
                let (kc, uc) = split(c, &inp, &aux);
                if ua.is_empty() && ub.is_empty() && uc.is_empty() {
                    continue;
                }
                // the constraint as  k + sum(u) = 0, when it is linear in the open wires
                let lin = if ua.is_empty() && ub.is_empty() {
                    Some((ka.m(&kb).s(&kc), vec![]))
                } else if ua.is_empty() {
                    ka.as_const().map(|x| (ka.m(&kb).s(&kc), ub.iter().map(|(w, c)| (*w, c.sc(x))).collect::<Vec<_>>()))
                } else if ub.is_empty() {
                    kb.as_const().map(|x| (ka.m(&kb).s(&kc), ua.iter().map(|(w, c)| (*w, c.sc(x))).collect::<Vec<_>>()))
                } else {
                    None
                };
                let mut done = false;
                if let Some((k0, mut u)) = lin {
                    u.extend(uc.iter().map(|(w, c)| (*w, c.neg())));
                    let mut m: std::collections::BTreeMap<Index, S<P>> = Default::default();
                    for (w, c) in u {
                        let e = m.entry(w).or_insert_with(|| S::k(0));
                        *e = e.a(&c);
                    }
                    m.retain(|_, c| c.as_const() != Some(0));
                    if m.len() == 1 {
                        let (w, c) = m.into_iter().next().unwrap();
                        if let Some(cv) = c.as_const() {
                            let v = k0.sc(P - inv_mod(cv, P));
                            match w {
                                Index::Input(n) => inp[n - 1] = Some(v),
                                Index::Aux(n) => aux[n] = Some(v),
                            }
                            done = true;
                            progress = true;
                        }
                    }
                }
                if !done {
                    if stuck.is_none() {
                        stuck = Some(ua.iter().chain(ub.iter()).chain(uc.iter()).map(|x| x.0).collect());
                    }
                    rest.push(k);
                }
            }
            open = rest;
            if progress {
                continue;
            }
            if let (Some(g), false) = (guess, is_conc()) {
                for (w, v) in pending.drain(..) {
                    if !tried.insert(w) {
                        continue;
                    }
                    let mut fs = vec![];
                    for c in i.cons.iter() {
                        let (ka, ua) = split(&c[0], &inp, &aux);
                        let (kb, ub) = split(&c[1], &inp, &aux);
                        let (kc, uc) = split(&c[2], &inp, &aux);
                        if ua.is_empty() && ub.is_empty() && uc.is_empty() {
                            fs.push(ka.m(&kb).eq_fm(&kc));
                        }
                    }
                    let h = g.wire(w);
                    fs.push(v.eq_fm(&h).not());
                    let t0 = std::time::Instant::now();
                    let r = entails_false(&fs);
                    if std::env::var("SYMX_LEMMA").is_ok() {
                        eprintln!("lemma {:?} {} {:?} open={}", w, r, t0.elapsed(), fs.iter().filter(|f| !matches!(f, Fm::T)).count());
                    }
                    if r {
                        return Err((w, h));
                    }
                }
            }
            match stuck {
                None => break,
                Some(ws) => {
                    for w in ws {
                        let v = self.fresh(tag, w, guess);
                        match w {
                            Index::Input(n) => inp[n - 1] = Some(v),
                            Index::Aux(n) => aux[n] = Some(v),
                        }
                        pending.push((w, v));
                    }
                }
            }
        }
        let inputs = inp.into_iter().enumerate().map(|(k, v)| v.unwrap_or_else(|| self.fresh(tag, Index::Input(k + 1), guess))).collect();
        let aux = aux.into_iter().enumerate().map(|(k, v)| v.unwrap_or_else(|| self.fresh(tag, Index::Aux(k), guess))).collect();
        Ok(Asg { inputs, aux })
    }
    pub fn sat(&self, a: &Asg<P>) -> Fm {
        let i = self.0.borrow();
        Fm::and(
            i.cons
                .iter()
                .map(|[x, y, z]| a.lc(x).m(&a.lc(y)).eq_fm(&a.lc(z)))
                .collect(),
        )
    }
    /// every enforced operand carries the value of its linear combination
    pub fn tracked(&self, a: &Asg<P>) -> Fm {
        let i = self.0.borrow();
        let mut v = vec![];
        for (l, w) in i.cons.iter().zip(i.vals.iter()) {
            for k in 0..3 {
                match w[k] {
                    Some(x) => v.push(a.lc(&l[k]).eq_fm(&x.0)),
                    None => v.push(Fm::F),
                }
            }
        }
        Fm::and(v)
    }
    /// same wires, same constraints (coefficients compared as field values, terms as maps)
    pub fn same(&self, o: &Self) -> Fm {
        let (a, b) = (self.0.borrow(), o.0.borrow());
        if a.inputs.len() != b.inputs.len() || a.aux.len() != b.aux.len() || a.cons.len() != b.cons.len() {
            return Fm::F;
        }
        let mut v = vec![];
        for (x, y) in a.cons.iter().zip(b.cons.iter()) {
            for k in 0..3 {
                v.push(same_lc(&x[k], &y[k]));
            }
        }
        Fm::and(v)
    }
    /// linear combinations are sorted by wire and mention each wire once
    pub fn wellformed(&self) -> bool {
        self.0.borrow().cons.iter().all(|c| c.iter().all(|l| sorted(l)))
    }
}

pub fn sorted<const P: u64>(l: &Lc<P>) -> bool {
    l.windows(2).all(|w| w[0].0 < w[1].0)
}

pub fn same_lc<const P: u64>(x: &Lc<P>, y: &Lc<P>) -> Fm {
    let mut m: std::collections::BTreeMap<Index, S<P>> = Default::default();
    for (i, c) in x {
        let e = m.entry(*i).or_insert_with(|| S::k(0));
        *e = e.a(&c.0);
    }
    for (i, c) in y {
        let e = m.entry(*i).or_insert_with(|| S::k(0));
        *e = e.s(&c.0);
    }
    Fm::and(m.values().map(|d| d.is_zero_fm()).collect())
}

type Form = (u64, Vec<(Index, u64)>);
thread_local! {
    static SOLVED: RefCell<std::collections::HashMap<(u64, Vec<(u64, Vec<(usize, u64)>)>, usize), Vec<Vec<u64>>>> = RefCell::new(Default::default());
}

fn konst_form<const P: u64>(l: &Lc<P>) -> Option<Vec<(Index, u64)>> {
    l.iter().map(|(i, c)| c.0.as_const().map(|k| (*i, k))).collect()
}

/// All values of the wires `ws` that satisfy the constraint A*B=C (forms over those wires).
/// The solver enumerates them and shows that there are no others; a concrete replay searches.
fn all_solutions<const P: u64>(f: &[Form; 3], ws: &[Index]) -> Vec<Vec<u64>> {
    let pos = |w: &Index| ws.iter().position(|x| x == w).unwrap();
    let key = (P, f.iter().map(|(k, t)| (*k, t.iter().map(|(w, c)| (pos(w), *c)).collect())).collect::<Vec<_>>(), ws.len());
    if let Some(v) = SOLVED.with(|s| s.borrow().get(&key).cloned()) {
        return v;
    }
    let mut res: Vec<Vec<u64>> = vec![];
    if is_conc() {
        let ev = |f: &Form, v: &[u64]| (f.0 + f.1.iter().map(|(w, c)| c * v[pos(w)] % P).sum::<u64>()) % P;
        let n = P.pow(ws.len() as u32);
        for k in 0..n {
            let mut v = vec![];
            let mut m = k;
            for _ in ws {
                v.push(m % P);
                m /= P;
            }
            if ev(&f[0], &v) * ev(&f[1], &v) % P == ev(&f[2], &v) {
                res.push(v);
            }
        }
        return res;
    }
    let names: Vec<String> = (0..ws.len()).map(|k| format!("sol!{}", k)).collect();
    let vs: Vec<S<P>> = names.iter().map(|n| S::var(n)).collect();
    let node = |f: &Form| {
        let mut a = S::<P>::k(f.0);
        for (w, c) in &f.1 {
            a = a.a(&vs[pos(w)].sc(*c));
        }
        a
    };
    let mut fs = vec![node(&f[0]).m(&node(&f[1])).eq_fm(&node(&f[2]))];
    loop {
        match with(|c| c.query(&fs, true)) {
            Sat::Unsat => break,
            Sat::Unknown(m) => abort_unknown(format!("model enumeration: {}", m)),
            Sat::Sat(m) => {
                let v: Vec<u64> = names.iter().map(|n| *m.get(n).unwrap_or(&0)).collect();
                fs.push(Fm::and(v.iter().zip(vs.iter()).map(|(k, x)| x.eqk_fm(*k)).collect()).not());
                res.push(v);
            }
        }
    }
    res.sort();
    SOLVED.with(|s| s.borrow_mut().insert(key, res.clone()));
    res
}

impl<const P: u64> RecCS<P> {
    /// The set of values the linear combinations `outs` take over all satisfying assignments
    /// whose first private wires have the values `given`.  Wires that no open constraint or
    /// output mentions are projected away.  None: a coefficient is not a constant, or an output
    /// is left free, or too many branches.
    pub fn solutions(&self, given: &[u64], outs: &[Lc<P>], limit: usize) -> Option<Vec<Vec<u64>>> {
        use std::collections::{BTreeMap, BTreeSet};
        let i = self.0.borrow();
        let mut cons = vec![];
        for c in &i.cons {
            cons.push([konst_form(&c[0])?, konst_form(&c[1])?, konst_form(&c[2])?]);
        }
        let outf: Vec<Vec<(Index, u64)>> = outs.iter().map(konst_form).collect::<Option<_>>()?;
        let mut start: BTreeMap<Index, u64> = Default::default();
        start.insert(Index::Input(0), 1);
        for (k, v) in given.iter().enumerate() {
            start.insert(Index::Aux(k), *v);
        }
        fn split<const P: u64>(l: &[(Index, u64)], a: &std::collections::BTreeMap<Index, u64>) -> Form {
            let mut k = 0;
            let mut u: Vec<(Index, u64)> = vec![];
            for (w, c) in l {
                match a.get(w) {
                    Some(v) => k = (k + c * v) % P,
                    None => {
                        if *c != 0 {
                            u.push((*w, *c))
                        }
                    }
                }
            }
            (k, u)
        }
        type St = (BTreeMap<Index, u64>, Vec<usize>);
        let mut frontier: BTreeSet<St> = BTreeSet::new();
        frontier.insert((start, (0..cons.len()).collect()));
        let mut results: BTreeSet<Vec<u64>> = Default::default();
        let mut steps = 0;
        while let Some((mut a, mut open)) = frontier.pop_first() {
            steps += 1;
            if steps > limit {
                return None;
            }
            // propagate
            let mut dead = false;
            loop {
                let mut progress = false;
                let mut rest = vec![];
                for k in open.iter() {
                    let c = &cons[*k];
                    let (fa, fb, fc) = (split::<P>(&c[0], &a), split::<P>(&c[1], &a), split::<P>(&c[2], &a));
                    let lin: Option<(u64, Vec<(Index, u64)>)> = if fa.1.is_empty() {
                        Some((fa.0 * fb.0 % P, fb.1.iter().map(|(w, x)| (*w, x * fa.0 % P)).collect()))
                    } else if fb.1.is_empty() {
                        Some((fa.0 * fb.0 % P, fa.1.iter().map(|(w, x)| (*w, x * fb.0 % P)).collect()))
                    } else {
                        None
                    };
                    match lin {
                        None => rest.push(*k),
                        Some((k0, u)) => {
                            let mut m: BTreeMap<Index, u64> = Default::default();
                            for (w, x) in u {
                                let e = m.entry(w).or_insert(0);
                                *e = (*e + x) % P;
                            }
                            for (w, x) in &fc.1 {
                                let e = m.entry(*w).or_insert(0);
                                *e = (*e + P - x) % P;
                            }
                            m.retain(|_, x| *x != 0);
                            let k0 = (k0 + P - fc.0) % P;
                            if m.is_empty() {
                                if k0 != 0 {
                                    dead = true;
                                    break;
                                }
                                progress = true;
                            } else if m.len() == 1 {
                                let (w, x) = m.into_iter().next().unwrap();
                                a.insert(w, (P - k0) % P * inv_mod(x, P) % P);
                                progress = true;
                            } else {
                                rest.push(*k);
                            }
                        }
                    }
                }
                if dead {
                    break;
                }
                open = rest;
                if !progress {
                    break;
                }
            }
            if dead {
                continue;
            }
            if open.is_empty() {
                let mut o = vec![];
                for l in &outf {
                    let f = split::<P>(l, &a);
                    if !f.1.is_empty() {
                        return None;
                    }
                    o.push(f.0);
                }
                results.insert(o);
                continue;
            }
            // branch on the open constraint with the fewest open wires
            let forms: Vec<(usize, [Form; 3], Vec<Index>)> = open
                .iter()
                .map(|k| {
                    let c = &cons[*k];
                    let f = [split::<P>(&c[0], &a), split::<P>(&c[1], &a), split::<P>(&c[2], &a)];
                    let mut ws: Vec<Index> = f.iter().flat_map(|x| x.1.iter().map(|y| y.0)).collect();
                    ws.sort();
                    ws.dedup();
                    (*k, f, ws)
                })
                .collect();
            let (_, f, ws) = forms.iter().min_by_key(|x| (x.2.len(), x.0)).unwrap();
            if ws.len() > 2 {
                return None;
            }
            let sols = all_solutions::<P>(f, ws);
            let mut live: BTreeSet<Index> = outf.iter().flatten().map(|x| x.0).collect();
            live.insert(Index::Input(0));
            for k in &open {
                for l in &cons[*k] {
                    live.extend(l.iter().map(|x| x.0));
                }
            }
            for s in sols {
                let mut b = a.clone();
                for (w, v) in ws.iter().zip(s) {
                    b.insert(*w, v);
                }
                b.retain(|w, _| live.contains(w));
                frontier.insert((b, open.clone()));
            }
        }
        Some(results.into_iter().collect())
    }
}
