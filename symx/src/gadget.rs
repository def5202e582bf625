//! The generic soundness/completeness check of a circuit gadget.
use crate::engine::*;
use crate::field::S;
use crate::reccs::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;

pub type C<'a, const P: u64> = CNum<'a, RecCS<P>>;
pub type B<'a, const P: u64> = CBool<'a, RecCS<P>>;

pub struct Gadget<const P: u64> {
    /// values of the wires allocated for the caller's inputs
    pub ins: Vec<S<P>>,
    /// what the caller guarantees about the inputs (both directions)
    pub given: Fm,
    /// on these inputs an honest prover must succeed
    pub must_accept: Fm,
    pub label: String,
    pub check_complete: bool,
    pub use_lemmas: bool,
    pub enumerate: bool,
}

impl<const P: u64> Gadget<P> {
    pub fn new(label: &str, ins: &[S<P>]) -> Self {
        Gadget { ins: ins.to_vec(), given: Fm::T, must_accept: Fm::T, label: label.into(), check_complete: true, use_lemmas: false, enumerate: false }
    }
    pub fn given(mut self, f: Fm) -> Self {
        self.given = f;
        self
    }
    pub fn accept(mut self, f: Fm) -> Self {
        self.must_accept = f;
        self
    }
    /// prove wire-uniqueness lemmas on the way (inputs must be constants on the path)
    pub fn lemmas(mut self) -> Self {
        self.use_lemmas = true;
        self
    }
    /// inputs are constants on the path: decide soundness by solver-driven wire elimination
    pub fn enumerate(mut self) -> Self {
        self.enumerate = true;
        self
    }
    pub fn sound_only(mut self) -> Self {
        self.check_complete = false;
        self
    }
    /// `build` gets the constraint system and the input signals and returns the output signals;
    /// `rel` is the relation that every satisfying assignment must establish over the outputs.
    pub fn run<Bf, Rf>(&self, build: Bf, rel: Rf)
    where
        Bf: for<'a> Fn(&'a RecCS<P>, &[C<'a, P>]) -> Vec<C<'a, P>>,
        Rf: Fn(&[S<P>]) -> Fm,
    {
        let l = &self.label;
        // 1. the constraint system, as generated without any witness
        let cs0 = RecCS::<P>::new();
        let r0 = attempt(|| {
            let ins: Vec<C<P>> = self.ins.iter().map(|_| C::alloc(&cs0, None)).collect();
            build(&cs0, &ins)
        });
        let outs0 = match r0 {
            Ok(o) => o,
            Err(e) => {
                check(format!("{}: circuit generation without a witness panics: {}", l, e), Fm::F);
                return;
            }
        };
        // 2. soundness: every assignment of every other wire
        let consts: Option<Vec<u64>> = self.ins.iter().map(|x| x.as_const()).collect();
        let sols = match (self.enumerate, consts) {
            (true, Some(c)) => cs0.solutions(&c, &outs0.iter().map(lc_of).collect::<Vec<_>>(), 20_000),
            _ => None,
        };
        if let Some(sols) = sols {
            for v in &sols {
                let o: Vec<S<P>> = v.iter().map(|x| S::k(*x)).collect();
                check(format!("{}: soundness", l), rel(&o));
            }
            if !sols.is_empty() {
                cover(format!("{}: satisfiable", l), Fm::T);
            }
        } else {
        let guess = if self.use_lemmas && self.ins.iter().all(|x| x.as_const().is_some()) {
            // what the code computes serves as the guess for wire-uniqueness lemmas
            let g = RecCS::<P>::new();
            match attempt(|| {
                let ins: Vec<C<P>> = self.ins.iter().map(|v| C::alloc(&g, Some(&Num(*v)))).collect();
                build(&g, &ins);
            }) {
                Ok(()) if g.n_aux() == cs0.n_aux() && g.n_in() == cs0.n_in() => g.honest(),
                _ => None,
            }
        } else {
            None
        };
        let adv = cs0.adversary_guided(&format!("{}.", l), &self.ins, guess.as_ref());
        let sat = Fm::and(vec![self.given.clone(), cs0.sat(&adv)]);
        let o: Vec<S<P>> = outs0.iter().map(|x| adv.num(x)).collect();
        let spec = rel(&o);
        check(format!("{}: soundness", l), Fm::implies(sat.clone(), spec));
        cover(format!("{}: satisfiable", l), sat);
        }
        if !self.check_complete {
            return;
        }
        // 3. completeness: the witness the code computes satisfies what it enforces
        assume(Fm::and(vec![self.given.clone(), self.must_accept.clone()]));
        let cs1 = RecCS::<P>::new();
        let r1 = attempt(|| {
            let ins: Vec<C<P>> = self.ins.iter().map(|v| C::alloc(&cs1, Some(&Num(*v)))).collect();
            build(&cs1, &ins)
        });
        let outs1 = match r1 {
            Ok(o) => o,
            Err(e) => {
                check(format!("{}: panic while proving a valid statement: {}", l, e), Fm::F);
                return;
            }
        };
        check(format!("{}: constraint system depends on the witness", l), cs0.same(&cs1));
        if outs0.len() != outs1.len() {
            check(format!("{}: number of outputs depends on the witness", l), Fm::F);
            return;
        }
        check(
            format!("{}: output wiring depends on the witness", l),
            Fm::and(outs0.iter().zip(outs1.iter()).map(|(a, b)| same_lc(&lc_of(a), &lc_of(b))).collect()),
        );
        let h = match cs1.honest() {
            Some(h) => h,
            None => {
                check(format!("{}: a wire has no value although every input has one", l), Fm::F);
                return;
            }
        };
        check(format!("{}: honest witness satisfies the constraints", l), cs1.sat(&h));
        check(format!("{}: operand values equal their linear combinations", l), cs1.tracked(&h));
        for (k, o) in outs1.iter().enumerate() {
            let f = match o.value {
                Some(v) => h.num(o).eq_fm(&v.0),
                None => Fm::F,
            };
            check(format!("{}: value of output {} equals its linear combination", l, k), f);
        }
        let ov: Vec<S<P>> = outs1.iter().map(|o| h.num(o)).collect();
        check(format!("{}: honest output", l), rel(&ov));
        cover(format!("{}: accepted", l), Fm::T);
    }
}

pub fn eqs<const P: u64>(a: &[S<P>], b: &[S<P>]) -> Fm {
    if a.len() != b.len() {
        return Fm::F;
    }
    Fm::and(a.iter().zip(b.iter()).map(|(x, y)| x.eq_fm(y)).collect())
}
/// sum of 2^i bits_i
pub fn weigh<const P: u64>(bits: &[S<P>]) -> S<P> {
    let mut acc = S::k(0);
    let mut k = 1u64;
    for b in bits {
        acc = acc.a(&b.sc(k));
        k = k * 2 % P;
    }
    acc
}
pub fn vars<const P: u64>(pre: &str, n: usize) -> Vec<S<P>> {
    (0..n).map(|i| S::var(&format!("{}{}", pre, i))).collect()
}
/// value of node == integer n, for every integer n in 0..p: the bits are those of n
pub fn bits_match<const P: u64>(x: &S<P>, bits: &[S<P>]) -> Fm {
    Fm::and(
        (0..P)
            .map(|v| {
                Fm::implies(
                    x.eqk_fm(v),
                    Fm::and(bits.iter().enumerate().map(|(i, b)| b.eqk_fm((v >> i) & 1)).collect()),
                )
            })
            .collect(),
    )
}
