//! Monitors the implementations for the standard library types that are in core or alloc

#![allow(unused_macros, unused_imports, dead_code)]

include!("../std_subjects.rs");

fn main() {
    let mut e = Engine::from_args();
    let e = &mut e;
    fixed!(e, [Tok<Src>, Tok<Dst>, Tok<Mid>]);
    seqs!(e, S, [Tok<Src>, Tok<Dst>, Tok<Mid>]);
    ordered!(e, S, [Tok<Src>, Tok<Dst>, Tok<Mid>]);
    heaps!(e, S, [Tok<Src>, Tok<Dst>, Tok<Mid>]);
    fixed!(e, [Tiny<Src>, Big<Dst>, Al<Mid>]);
    seqs!(e, S, [Tiny<Src>, Big<Dst>, Al<Mid>]);
    ordered!(e, S, [Tiny<Src>, Big<Dst>, Al<Mid>]);
    heaps!(e, S, [Tiny<Src>, Big<Dst>, Al<Mid>]);
    e.finish()
}
