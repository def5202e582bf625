//! C31: the command line bindings (`groth16_*_bindings!`).  The macros are taken from /repo's source and expanded here, so
//! that `$crate` is this crate: the Groth16 functions they call are stand-ins which record their arguments (the real ones
//! are decided by C21-C28), everything else is re-exported from the library.  Field elements are opaque words (`tok`).
#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_macros)]
pub use symcore::{driver, engine, field};

thread_local! {
    static PRINTED: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]);
}
macro_rules! println {
    ($($a:tt)*) => { PRINTED.with(|p| p.borrow_mut().push(format!($($a)*))) };
}
macro_rules! print {
    ($($a:tt)*) => { PRINTED.with(|p| p.borrow_mut().push(format!($($a)*))) };
}
#[macro_use]
#[path = "/repo/src/macros.rs"]
pub mod macros;
#[path = "../../symx/src/tok.rs"]
pub mod tok;
mod cases;
pub mod world;

pub use fawkes_crypto::*;
pub mod core {
    pub use fawkes_crypto::core::*;
}
pub mod native {
    pub use fawkes_crypto::native::*;
}
pub mod helpers {
    pub use fawkes_crypto::helpers::*;
    pub mod groth16 {
        pub use fawkes_crypto::helpers::groth16::*;
        pub mod prover {
            pub use fawkes_crypto::helpers::groth16::prover::*;
            pub use crate::world::{generate_keys, prove, Parameters, Proof, ProofData};
        }
        pub mod verifier {
            pub use fawkes_crypto::helpers::groth16::verifier::*;
            pub use crate::world::{truncate_verifying_key, verify, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
        }
        pub mod ethereum {
            pub use fawkes_crypto::helpers::groth16::ethereum::*;
            pub use crate::world::generate_sol_data;
        }
        pub use fawkes_crypto::helpers::groth16::near;
    }
}
pub mod pairing {
    pub trait Engine {
        type Fr;
    }
    pub mod bn256 {
        pub struct Bn256;
        pub type Fr = crate::tok::T<13>;
        pub type Fq = crate::tok::T<13>;
        impl super::Engine for Bn256 {
            type Fr = Fr;
        }
    }
    pub mod bls12_381 {
        pub struct Bls12;
        pub type Fr = crate::tok::T<13>;
        pub type Fq = crate::tok::T<13>;
        impl super::Engine for Bls12 {
            type Fr = Fr;
        }
    }
}
pub mod bindings {
    use crate::cases::{main_circuit, test_data, CPub, CSec, Pub, Sec, PARAMS};
    use crate::{pairing, PRINTED};
    groth16_ethereum_bindings!(eth, Pub<Fr>, CPub, Sec<Fr>, CSec, PARAMS, main_circuit, test_data);
    groth16_waves_bindings!(waves, Pub<Fr>, CPub, Sec<Fr>, CSec, PARAMS, main_circuit, test_data);
    groth16_waves_bindings_bn256!(waves_bn256, Pub<Fr>, CPub, Sec<Fr>, CSec, PARAMS, main_circuit, test_data);
    groth16_near_bindings!(near, Pub<Fr>, CPub, Sec<Fr>, CSec, PARAMS, main_circuit, test_data);
    pub fn cli(which: &str) {
        match which {
            "ethereum" => eth::cli_main(),
            "waves" => waves::cli_main(),
            "waves_bn256" => waves_bn256::cli_main(),
            "near" => near::cli_main(),
            _ => unreachable!(),
        }
    }
}

fn main() {
    symcore::cli(cases::props())
}
