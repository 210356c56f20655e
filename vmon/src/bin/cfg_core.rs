//! Monitors the implementations for the standard library types that are in core

#![allow(unused_macros, unused_imports, dead_code)]

include!("../std_subjects.rs");

fn main() {
    let mut e = Engine::from_args();
    let e = &mut e;
    core!(e, [Tok<Src>, Tok<Dst>, Tok<Mid>]);
    core!(e, [Tiny<Src>, Big<Dst>, Al<Mid>]);
    e.finish()
}
