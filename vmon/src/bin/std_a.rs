//! Monitors the implementations for standard library types

#![allow(unused_macros, dead_code)]

include!("../std_subjects.rs");

fn main() {
    let mut e = Engine::from_args();
    let e = &mut e;
    everything!(e, L, [Tok<Src>, Tok<Dst>, Tok<Mid>]);
    everything!(e, S, [Tok<Src>, Big<Dst>, Al<Mid>]);
    e.finish()
}
