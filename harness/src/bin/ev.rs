//! Monitor of operand expressions (see ev.rs).
include!(concat!(env!("MON_GEN"), "/ev.rs"));

fn main() {
    monharness::ev::main_with(all())
}
