use crate::driver::Prop;
pub mod bits;
pub mod composite;
pub mod curve;
pub mod curve2;
pub mod native;
pub mod groth;
pub mod hash;
pub mod num;
pub mod proof;
pub mod seeded;
pub mod uniform;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(num::props());
    v.extend(bits::props());
    v.extend(composite::props());
    v.extend(curve::props());
    v.extend(curve2::props());
    v.extend(native::props());
    v.extend(hash::props());
    v.extend(proof::props());
    v.extend(groth::props());
    v.extend(seeded::props());
    v.extend(uniform::props());
    v
}
