#[macro_use]
pub mod nd;
pub mod h;
pub mod kf;
pub mod tok;
