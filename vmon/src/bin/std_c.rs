//! Monitors the implementations for standard library types

#![allow(unused_macros, dead_code)]

include!("../std_subjects.rs");

fn main() {
    let mut e = Engine::from_args();
    let e = &mut e;
    everything!(e, S, [Cp<Src>, Cp<Dst>, Big<Mid>]);
    everything!(e, S, [Big<Src>, Cp<Dst>, Tiny<Mid>]);
    e.finish()
}
