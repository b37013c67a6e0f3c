// The programs are written by gen.py into $VPGEN.
#![allow(unused, non_snake_case, non_camel_case_types, clippy::all)]
#[path = "../../../native/src/host.rs"]
pub mod host;
#[path = "../support.rs"]
pub mod support;
include!(concat!(env!("VPGEN"), "/g2.rs"));
fn main() {
    support::main(PROGRAMS)
}
