//! Stand-in for the command line parser: `parse` takes the values from `set_args`, else the declared default.
pub use clapd::Clap;
use std::cell::RefCell;
thread_local! {
    static ARGS: RefCell<Vec<(String, String)>> = RefCell::new(vec![]);
    static DIR: RefCell<String> = RefCell::new(String::new());
    static CMD: RefCell<String> = RefCell::new(String::new());
}
pub fn set_args(cmd: &str, a: &[(&str, String)]) {
    CMD.with(|c| *c.borrow_mut() = cmd.into());
    ARGS.with(|x| *x.borrow_mut() = a.iter().map(|(k, v)| (k.to_string(), v.clone())).collect());
}
pub fn command() -> String {
    CMD.with(|c| c.borrow().clone())
}
/// where default file names are taken to lie
pub fn set_dir(d: &str) {
    DIR.with(|x| *x.borrow_mut() = d.into());
}
/// the value of an option
pub fn arg(long: &str, short: &str, default: &str) -> String {
    if let Some(v) = ARGS.with(|x| x.borrow().iter().find(|(k, _)| k == long || (k.len() == 1 && k == short)).map(|x| x.1.clone())) {
        return v;
    }
    if default.is_empty() {
        panic!("stand-in: no value for option {}", long);
    }
    DIR.with(|x| format!("{}/{}", x.borrow(), default))
}
pub trait Clap: Sized {
    fn parse() -> Self;
}
