//! Nondeterministic values: the model checker's, or those of a counterexample being replayed.
#[cfg(kani)]
mod imp {
    pub fn any<T: kani::Arbitrary>() -> T {
        kani::any()
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
    // defined in a C file that the driver links in: constants of one run
    extern "C" {
        fn verif_param0() -> usize;
        fn verif_param1() -> usize;
    }
    pub fn param(i: usize) -> usize {
        unsafe {
            if i == 0 {
                verif_param0()
            } else {
                verif_param1()
            }
        }
    }
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    thread_local! { pub static STREAM: RefCell<(Vec<u8>, usize)> = RefCell::new((vec![], 0)); }
    fn take<const N: usize>() -> [u8; N] {
        STREAM.with(|s| {
            let mut s = s.borrow_mut();
            let mut r = [0u8; N];
            for b in r.iter_mut() {
                *b = s.0.get(s.1).cloned().unwrap_or(0);
                s.1 += 1;
            }
            r
        })
    }
    pub trait Nd: Sized {
        fn nd() -> Self;
    }
    macro_rules! i { ($($t:ty),*) => { $(impl Nd for $t { fn nd() -> Self { <$t>::from_le_bytes(take()) } })* } }
    i!(u8, u16, u32, u64, usize, i32, i64, i8, i16);
    impl Nd for bool {
        fn nd() -> Self {
            u8::nd() != 0
        }
    }
    impl<T: Nd, const N: usize> Nd for [T; N] {
        fn nd() -> Self {
            std::array::from_fn(|_| T::nd())
        }
    }
    pub fn param(i: usize) -> usize {
        std::env::var(if i == 0 { "PARAM0" } else { "PARAM1" }).unwrap().parse().unwrap()
    }
    pub fn any<T: Nd>() -> T {
        T::nd()
    }
    pub fn assume(b: bool) {
        if !b {
            println!("ASSUMPTION-VIOLATED");
            std::process::exit(3);
        }
    }
}
pub use imp::*;
/// reached: the end of a harness (must be reachable, or must not be for a refusal harness)
#[macro_export]
macro_rules! reached {
    () => {
        #[cfg(kani)]
        kani::cover!(true, "reached");
        #[cfg(not(kani))]
        println!("REACHED");
    };
}
#[macro_export]
macro_rules! harnesses {
    ($($(#[$a:meta])* fn $name:ident() $body:block)*) => {
        $( #[cfg_attr(kani, kani::proof)] $(#[cfg_attr(kani, $a)])* pub fn $name() $body )*
        pub const ALL: &[(&str, fn())] = &[ $((stringify!($name), $name as fn())),* ];
    };
}

