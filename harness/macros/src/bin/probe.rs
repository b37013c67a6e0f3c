// Compiles whenever the library and this harness do, whatever the macros make of the generated programs.
#![allow(unused, clippy::all)]
#[path = "../../../native/src/host.rs"]
pub mod host;
#[path = "../support.rs"]
pub mod support;
fn main() {
    let v = vertigo::Value::new(1);
    let _ = vertigo::DomElement::new("p").child(vertigo::DomText::new("x")).child(vertigo::EmbedDom::embed(&v));
    support::main(&[])
}
