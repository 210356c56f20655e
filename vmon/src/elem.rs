//! Element types the monitors let the code under test move around

use crate::ledger;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

/// Role of an element; makes source, target etc. different types
pub trait Class: 'static {
    const C: u8;
    const N: &'static str;
}
macro_rules! classes { ($($n:ident $c:literal),*) => { $(
    pub struct $n;
    impl Class for $n { const C: u8 = $c; const N: &'static str = stringify!($n); }
)* } }
classes!(Src 1, Dst 2, Mid 3, Oth 4, Erc 5, Oth2 6);

/// What a monitor knows about an element
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Info {
    pub id: u64,
    pub key: u32,
    pub prov: u64,
}

pub trait Elem: Sized + 'static {
    /// no identity (zero-sized)
    const ANON: bool;
    /// births and deaths are recorded
    const TRACKED: bool;
    const CLASS: u8;
    fn born(key: u32, prov: u64) -> Self;
    fn info(&self) -> Info;
    fn kind() -> String;
}

const MAGIC: u64 = 0x5ca1_ab1e_0dd5_eed5;

macro_rules! by_key { ($($t:ident),*) => { $(
    impl<K: Class> PartialEq for $t<K> { fn eq(&self, o: &Self) -> bool { self.info().key == o.info().key } }
    impl<K: Class> Eq for $t<K> {}
    impl<K: Class> PartialOrd for $t<K> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl<K: Class> Ord for $t<K> { fn cmp(&self, o: &Self) -> Ordering { self.info().key.cmp(&o.info().key) } }
    impl<K: Class> Hash for $t<K> { fn hash<H: Hasher>(&self, h: &mut H) { self.info().key.hash(h) } }
    impl<K: Class> fmt::Debug for $t<K> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let i = self.info(); write!(f, "{}#{}k{}", K::N, i.id, i.key)
    } }
)* } }
by_key!(Tok, Big, Al, Tiny, Z, Cp, Zc);

/// Owns heap memory; every birth and death is recorded
pub struct Tok<K: Class> {
    id: u64,
    prov: u64,
    canary: Box<u64>,
    key: u32,
    _k: PhantomData<K>,
}
impl<K: Class> Elem for Tok<K> {
    const ANON: bool = false;
    const TRACKED: bool = true;
    const CLASS: u8 = K::C;
    fn born(key: u32, prov: u64) -> Self {
        let id = ledger::fresh();
        ledger::birth(id, K::C);
        Tok { id, prov, canary: Box::new(id ^ MAGIC), key, _k: PhantomData }
    }
    fn info(&self) -> Info {
        Info { id: self.id, key: self.key, prov: self.prov }
    }
    fn kind() -> String {
        format!("Tok<{}>", K::N)
    }
}
impl<K: Class> Drop for Tok<K> {
    fn drop(&mut self) {
        if *self.canary != self.id ^ MAGIC {
            ledger::bad(format!("element {} dropped with a broken payload", self.id));
        }
        ledger::death(self.id, K::C);
    }
}

/// Larger than the others
pub struct Big<K: Class> {
    pad: [u64; 5],
    tok: Tok<K>,
}
impl<K: Class> Elem for Big<K> {
    const ANON: bool = false;
    const TRACKED: bool = true;
    const CLASS: u8 = K::C;
    fn born(key: u32, prov: u64) -> Self {
        let tok = Tok::<K>::born(key, prov);
        Big { pad: [tok.id; 5], tok }
    }
    fn info(&self) -> Info {
        let i = self.tok.info();
        if self.pad.iter().any(|p| *p != i.id) {
            ledger::bad(format!("padding of element {} is broken", i.id));
        }
        i
    }
    fn kind() -> String {
        format!("Big<{}>", K::N)
    }
}

/// Over-aligned
#[repr(align(64))]
pub struct Al<K: Class>(Tok<K>);
impl<K: Class> Elem for Al<K> {
    const ANON: bool = false;
    const TRACKED: bool = true;
    const CLASS: u8 = K::C;
    fn born(key: u32, prov: u64) -> Self {
        Al(Tok::born(key, prov))
    }
    fn info(&self) -> Info {
        if (self as *const Self as usize) % 64 != 0 {
            ledger::bad(format!("element {} is misaligned", self.0.id));
        }
        self.0.info()
    }
    fn kind() -> String {
        format!("Al<{}>", K::N)
    }
}

/// Four bytes, with a niche, and dropped through a side table
pub struct Tiny<K: Class>(std::num::NonZeroU32, PhantomData<K>);
impl<K: Class> Elem for Tiny<K> {
    const ANON: bool = false;
    const TRACKED: bool = true;
    const CLASS: u8 = K::C;
    fn born(key: u32, prov: u64) -> Self {
        let id = ledger::fresh();
        ledger::birth(id, K::C);
        ledger::with(|l| l.side.insert(id, (key, prov)));
        Tiny(std::num::NonZeroU32::new(id as u32).unwrap(), PhantomData)
    }
    fn info(&self) -> Info {
        let id = u64::from(self.0.get());
        let (key, prov) = ledger::with(|l| match l.side.get(&id) {
            Some(x) => *x,
            None => {
                l.bad.push(format!("element {id} does not exist"));
                (0, 0)
            }
        });
        Info { id, key, prov }
    }
    fn kind() -> String {
        format!("Tiny<{}>", K::N)
    }
}
impl<K: Class> Drop for Tiny<K> {
    fn drop(&mut self) {
        ledger::death(u64::from(self.0.get()), K::C);
    }
}

/// Zero-sized, births and deaths are counted
pub struct Z<K: Class>(PhantomData<K>);
impl<K: Class> Elem for Z<K> {
    const ANON: bool = true;
    const TRACKED: bool = true;
    const CLASS: u8 = K::C;
    fn born(_: u32, _: u64) -> Self {
        ledger::zbirth(K::C);
        Z(PhantomData)
    }
    fn info(&self) -> Info {
        Info { id: 0, key: 0, prov: 0 }
    }
    fn kind() -> String {
        format!("Z<{}>", K::N)
    }
}
impl<K: Class> Drop for Z<K> {
    fn drop(&mut self) {
        ledger::zdeath(K::C);
    }
}

/// Plain data without drop glue
pub struct Cp<K: Class> {
    id: u64,
    prov: u64,
    key: u32,
    _k: PhantomData<K>,
}
impl<K: Class> Clone for Cp<K> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<K: Class> Copy for Cp<K> {}
impl<K: Class> Elem for Cp<K> {
    const ANON: bool = false;
    const TRACKED: bool = false;
    const CLASS: u8 = K::C;
    fn born(key: u32, prov: u64) -> Self {
        Cp { id: ledger::fresh(), prov, key, _k: PhantomData }
    }
    fn info(&self) -> Info {
        Info { id: self.id, key: self.key, prov: self.prov }
    }
    fn kind() -> String {
        format!("Cp<{}>", K::N)
    }
}

/// Zero-sized without drop glue
pub struct Zc<K: Class>(PhantomData<K>);
impl<K: Class> Elem for Zc<K> {
    const ANON: bool = true;
    const TRACKED: bool = false;
    const CLASS: u8 = K::C;
    fn born(_: u32, _: u64) -> Self {
        Zc(PhantomData)
    }
    fn info(&self) -> Info {
        Info { id: 0, key: 0, prov: 0 }
    }
    fn kind() -> String {
        format!("Zc<{}>", K::N)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}
