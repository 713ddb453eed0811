//! Differential instruction monitor for literal source lines.
include!(concat!(env!("MON_GEN"), "/lit.rs"));

fn main() {
    monharness::diff::main_with(all())
}
