//! Monitors the implementations for standard library types

#![allow(unused_macros, dead_code)]

include!("../std_subjects.rs");

fn main() {
    let mut e = Engine::from_args();
    let e = &mut e;
    everything!(e, S, [Al<Src>, Tiny<Dst>, Tok<Mid>]);
    everything!(e, S, [Tiny<Src>, Tok<Dst>, Cp<Mid>]);
    e.finish()
}
