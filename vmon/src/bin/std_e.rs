//! Monitors the implementations for standard library types

#![allow(unused_macros, dead_code)]

include!("../std_subjects.rs");

fn main() {
    let mut e = Engine::from_args();
    let e = &mut e;
    // the mapped type equals the source type
    everything!(e, S, [Tok<Src>, Tok<Src>, Tok<Src>]);
    everything!(e, S, [Cp<Src>, Cp<Src>, Cp<Src>]);
    e.finish()
}
