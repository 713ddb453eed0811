//! Lines outside the assembly language: this program must lose all of them before it compiles.
include!(concat!(env!("MON_GEN"), "/neg.rs"));
fn main() {}
