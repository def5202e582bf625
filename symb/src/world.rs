//! Stand-ins for the Groth16 layer: they record what they are called with; encodings are numbers which name the object.
use crate::engine::*;
use crate::field::S;
use crate::pairing::Engine;
use crate::tok::T;
use fawkes_crypto::borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem};
use fawkes_crypto::native::num::Num;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::marker::PhantomData;

pub type F = T<13>;
pub type Lc = Vec<(Index, Num<F>)>;
#[derive(Clone, Default)]
pub struct Run {
    pub inputs: Vec<Option<Num<F>>>,
    pub aux: Vec<Option<Num<F>>>,
    pub cons: Vec<[Lc; 3]>,
}
impl Run {
    fn lc(&self, l: &Lc) -> Option<S<13>> {
        let mut r = S::k(0);
        for (i, c) in l {
            let v = match i {
                Index::Input(0) => S::k(1),
                Index::Input(i) => self.inputs[i - 1]?.0.n,
                Index::Aux(i) => self.aux[*i]?.0.n,
            };
            r = r.a(&c.0.n.m(&v));
        }
        Some(r)
    }
    /// the assignment satisfies the constraints
    pub fn sat(&self) -> Option<Fm> {
        let mut v = vec![];
        for c in &self.cons {
            v.push(self.lc(&c[0])?.m(&self.lc(&c[1])?).eq_fm(&self.lc(&c[2])?));
        }
        Some(Fm::and(v))
    }
    pub fn same_circuit(&self, o: &Run) -> Fm {
        if (self.inputs.len(), self.aux.len(), self.cons.len()) != (o.inputs.len(), o.aux.len(), o.cons.len()) {
            return Fm::F;
        }
        let mut v = vec![];
        for (a, b) in self.cons.iter().zip(o.cons.iter()) {
            for (x, y) in a.iter().zip(b.iter()) {
                if x.len() != y.len() || x.iter().zip(y.iter()).any(|(p, q)| p.0 != q.0) {
                    return Fm::F;
                }
                v.extend(x.iter().zip(y.iter()).map(|(p, q)| p.1 .0.n.eq_fm(&q.1 .0.n)));
            }
        }
        Fm::and(v)
    }
}
#[derive(Default)]
pub struct World {
    pub keys: Vec<Run>,
    /// (key, run)
    pub proofs: Vec<(usize, Run)>,
    /// (key, proof, inputs, verdict: 0 error, 1 rejected, 2 accepted)
    pub verified: Vec<(usize, usize, Vec<F>, u64)>,
    pub contracts: Vec<usize>,
}
thread_local! {
    pub static WORLD: RefCell<World> = RefCell::new(World::default());
}
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

#[derive(Clone)]
pub struct TokCS(std::rc::Rc<RefCell<Run>>);
impl std::fmt::Debug for TokCS {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "TokCS")
    }
}
impl ConstraintSystem for TokCS {
    type F = F;
    fn alloc(&self, v: Option<Num<F>>) -> Index {
        let mut r = self.0.borrow_mut();
        r.aux.push(v);
        Index::Aux(r.aux.len() - 1)
    }
    fn alloc_input(&self, v: Option<Num<F>>) -> Index {
        let mut r = self.0.borrow_mut();
        r.inputs.push(v);
        Index::Input(r.inputs.len())
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        let l = |n: &CNum<Self>| n.lc.iter().cloned().collect::<Lc>();
        let c = [l(a), l(b), l(c)];
        self.0.borrow_mut().cons.push(c);
    }
}
fn run<C: Circuit<F = F>>(c: &C) -> Run {
    let cs = TokCS(Default::default());
    c.synthesize(&cs);
    let r = cs.0.borrow().clone();
    r
}

pub const PARAMS: u64 = 0x1111_0000;
pub const VK: u64 = 0x2222_0000;
pub const PROOF: u64 = 0x3333_0000;
fn put<W: Write>(mut w: W, kind: u64, id: usize) -> io::Result<()> {
    w.write_all(&(kind + id as u64).to_le_bytes())
}
fn named(x: u64, kind: u64) -> io::Result<usize> {
    if x & !0xffff == kind {
        Ok((x - kind) as usize)
    } else {
        Err(io::Error::new(io::ErrorKind::InvalidData, "not such an object"))
    }
}
fn get<R: Read>(mut r: R, kind: u64) -> io::Result<usize> {
    let mut b = [0; 8];
    r.read_exact(&mut b)?;
    named(u64::from_le_bytes(b), kind)
}

/// the length of a key's list of input points
fn ic(id: usize) -> Vec<()> {
    vec![(); world(|w| w.keys.get(id).map_or(1, |k| k.inputs.len() + 1))]
}
pub struct VerifyingKey<E> {
    pub id: usize,
    pub ic: Vec<()>,
    e: PhantomData<E>,
}
pub struct Parameters<E> {
    pub id: usize,
    pub vk: VerifyingKey<E>,
}
impl<E> Proof<E> {
    fn of(id: usize) -> Self {
        Proof { id, e: PhantomData }
    }
}
impl<E> TruncatedVerifyingKey<E> {
    fn of(id: usize) -> Self {
        TruncatedVerifyingKey { id, ic: ic(id), e: PhantomData }
    }
}
impl<E> Parameters<E> {
    fn of(id: usize) -> Self {
        Parameters { id, vk: VerifyingKey { id, ic: ic(id), e: PhantomData } }
    }
    pub fn write<W: Write>(&self, w: W) -> io::Result<()> {
        put(w, PARAMS, self.id)
    }
    pub fn read<R: Read>(r: R, _checked: bool) -> io::Result<Self> {
        Ok(Self::of(get(r, PARAMS)?))
    }
}
pub struct Proof<E> {
    pub id: usize,
    e: PhantomData<E>,
}
pub struct TruncatedVerifyingKey<E> {
    pub id: usize,
    pub ic: Vec<()>,
    e: PhantomData<E>,
}
macro_rules! object {
    ($t:ident, $d:ident, $k:expr) => {
        impl<E> $t<E> {
            pub fn write<W: Write>(&self, w: W) -> io::Result<()> {
                put(w, $k, self.id)
            }
            pub fn read<R: Read>(r: R) -> io::Result<Self> {
                Ok($t::of(get(r, $k)?))
            }
            pub fn into_data(&self) -> $d<F> {
                $d { id: self.id, f: PhantomData }
            }
            pub fn from_data(d: &$d<F>) -> Self {
                $t::of(d.id)
            }
        }
        #[derive(Clone, Debug, PartialEq)]
        pub struct $d<F> {
            pub id: usize,
            f: PhantomData<F>,
        }
        impl<F> Serialize for $d<F> {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u64($k + self.id as u64)
            }
        }
        impl<'de, F> Deserialize<'de> for $d<F> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let id = named(<u64 as Deserialize>::deserialize(d)?, $k).map_err(serde::de::Error::custom)?;
                Ok($d { id, f: PhantomData })
            }
        }
        impl<F> BorshSerialize for $d<F> {
            fn serialize<W: Write>(&self, w: &mut W) -> io::Result<()> {
                put(w, $k, self.id)
            }
        }
        impl<F> BorshDeserialize for $d<F> {
            fn deserialize(b: &mut &[u8]) -> io::Result<Self> {
                Ok($d { id: get(b, $k)?, f: PhantomData })
            }
        }
    };
}
object!(Proof, ProofData, PROOF);
object!(TruncatedVerifyingKey, TruncatedVerifyingKeyData, VK);

pub fn generate_keys<E: Engine<Fr = F>, C: Circuit<F = F> + Default>() -> Parameters<E> {
    let r = run(&C::default());
    Parameters::of(world(|w| {
        w.keys.push(r);
        w.keys.len() - 1
    }))
}
pub fn prove<E: Engine<Fr = F>, C: Circuit<F = F>>(c: &C, params: &Parameters<E>) -> Proof<E> {
    let r = run(c);
    let id = world(|w| {
        w.proofs.push((params.id, r));
        w.proofs.len() - 1
    });
    Proof { id, e: PhantomData }
}
pub fn truncate_verifying_key<E>(k: &VerifyingKey<E>) -> TruncatedVerifyingKey<E> {
    TruncatedVerifyingKey::of(k.id)
}
/// any verdict is possible, except that a wrong number of inputs is an error (C22)
pub fn verify<E: Engine<Fr = F>>(k: &TruncatedVerifyingKey<E>, p: &Proof<E>, inputs: &[F]) -> Result<bool, &'static str> {
    let n = world(|w| w.verified.len());
    let v = if inputs.len() + 1 != k.ic.len() { 0 } else { decide_value(S::<3>::var(&format!("verdict{}", n)).0) };
    world(|w| w.verified.push((k.id, p.id, inputs.to_vec(), v)));
    match v {
        0 => Err("malformed verifying key"),
        1 => Ok(false),
        _ => Ok(true),
    }
}
pub fn generate_sol_data(k: &TruncatedVerifyingKeyData<F>) -> String {
    world(|w| w.contracts.push(k.id));
    contract(k.id)
}
/// long enough for partial writes to show
pub fn contract(id: usize) -> String {
    format!("contract {} {}", id, "/* text */\n".repeat(2000))
}
