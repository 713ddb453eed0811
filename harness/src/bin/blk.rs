//! Monitor of whole invocations (see blk.rs).
include!(concat!(env!("MON_GEN"), "/blk.rs"));

fn main() {
    monharness::blk::main_with(all())
}
