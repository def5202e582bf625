//! kreplay <harness> <file>: runs a harness natively on the bytes of a counterexample.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (n, _) in kharness::h::ALL {
            println!("{}", n);
        }
        return;
    }
    let (_, f) = kharness::h::ALL.iter().find(|x| x.0 == a[1]).expect("no such harness");
    #[cfg(not(kani))]
    kharness::nd::STREAM.with(|s| *s.borrow_mut() = (std::fs::read(&a[2]).expect("file"), 0));
    f();
    println!("COMPLETED");
}
