//! Differential instruction monitor with run-time operands.
include!(concat!(env!("MON_GEN"), "/tmpl.rs"));

fn main() {
    monharness::diff::main_with(all())
}
