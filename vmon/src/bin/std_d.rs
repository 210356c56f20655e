//! Monitors the implementations for standard library types

#![allow(unused_macros, dead_code)]

include!("../std_subjects.rs");

fn main() {
    let mut e = Engine::from_args();
    let e = &mut e;
    // zero-sized on either side
    fixed!(e, [Z<Src>, Z<Dst>, Z<Mid>]);
    seqs!(e, S, [Z<Src>, Z<Dst>, Z<Mid>]);
    heaps!(e, S, [Z<Src>, Z<Dst>, Z<Mid>]);
    fixed!(e, [Z<Src>, Tok<Dst>, Tok<Mid>]);
    seqs!(e, S, [Z<Src>, Tok<Dst>, Tok<Mid>]);
    fixed!(e, [Tok<Src>, Z<Dst>, Tok<Mid>]);
    seqs!(e, S, [Tok<Src>, Z<Dst>, Tok<Mid>]);
    heaps!(e, S, [Tok<Src>, Z<Dst>, Tok<Mid>]);
    seqs!(e, S, [Zc<Src>, Zc<Dst>, Zc<Mid>]);
    seqs!(e, S, [Zc<Src>, Tok<Dst>, Tok<Mid>]);
    e.finish()
}
