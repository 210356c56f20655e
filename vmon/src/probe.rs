//! Observing at run time which implementations exist

use funcmap::{FuncMap, TryFuncMap};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

/// Whether a type without free parameters satisfies a bound
#[macro_export]
macro_rules! probe {
    ($t:ty : $($b:tt)+) => {{
        trait ProbeNo { const YES: bool = false; }
        impl<ProbeT: ?Sized> ProbeNo for ProbeT {}
        #[allow(dead_code)]
        struct ProbeP<ProbeT: ?Sized>(::std::marker::PhantomData<ProbeT>);
        #[allow(dead_code)]
        impl<ProbeT: ?Sized + $($b)+> ProbeP<ProbeT> { const YES: bool = true; }
        <ProbeP<$t>>::YES
    }};
}

/// Elements with chosen traits: bit 0 `Ord`, 1 `Hash`, 2 [`Tr0`], 3 [`Tr1`].
/// Beyond that they implement nothing, not even the auto traits.
pub struct Pe<const M: u8>(PhantomData<*mut std::cell::Cell<u8>>);
pub trait Tr0 {}
pub trait Tr1 {}
macro_rules! pe {
    (eq $($m:literal)*) => { $(
        impl PartialEq for Pe<$m> { fn eq(&self, _: &Self) -> bool { true } }
        impl Eq for Pe<$m> {}
    )* };
    (ord $($m:literal)*) => { $(
        impl PartialOrd for Pe<$m> { fn partial_cmp(&self, _: &Self) -> Option<Ordering> { Some(Ordering::Equal) } }
        impl Ord for Pe<$m> { fn cmp(&self, _: &Self) -> Ordering { Ordering::Equal } }
    )* };
    (hash $($m:literal)*) => { $( impl Hash for Pe<$m> { fn hash<H: Hasher>(&self, _: &mut H) {} } )* };
    ($t:ident $($m:literal)*) => { $( impl $t for Pe<$m> {} )* };
}
pe!(eq 1 2 3 5 6 7 9 10 11 13 14 15);
pe!(ord 1 3 5 7 9 11 13 15);
pe!(hash 2 3 6 7 10 11 14 15);
pe!(Tr0 4 5 6 7 12 13 14 15);
pe!(Tr1 8 9 10 11 12 13 14 15);
impl<T: Tr0> Tr0 for Vec<T> {}
impl<T: Tr0> Tr0 for Option<T> {}

impl<T: Tr0, const N: usize> Tr0 for [T; N] {}
impl<T: Tr1, const N: usize> Tr1 for [T; N] {}
impl<T: Tr0, U: Tr1> Tr0 for (T, U) {}
macro_rules! elems { ($($t:ident)*) => { $( impl<K: crate::Class> Tr0 for crate::$t<K> {} impl<K: crate::Class> Tr1 for crate::$t<K> {} )* } }
elems!(Tok Big Al Tiny Z Cp Zc);

// What bounds may be made of; each holds for what has `Tr0` (and `Tr1`)
pub trait Of<X: ?Sized> {}
impl<X: Tr0 + ?Sized> Of<X> for u8 {}
pub trait Conv<Y: ?Sized> {}
impl<X: Tr0 + ?Sized, Y: Tr1 + ?Sized> Conv<Y> for X {}
pub struct Wr<X: ?Sized>(PhantomData<X>);
impl<X: Tr1 + ?Sized> Tr1 for Wr<X> {}
pub trait Proj {
    type P;
}
impl<X: Tr0 + ?Sized> Proj for X {
    type P = Wr<X>;
}
pub trait Fam<X: ?Sized> {
    type Out;
}
impl<X: Tr0 + ?Sized> Fam<X> for u8 {
    type Out = Wr<X>;
}
pub trait Hr<'h> {}
impl<'h, X: Tr0 + ?Sized> Hr<'h> for X {}
pub trait HrConv<'h, Y: ?Sized> {}
impl<'h, X: Tr0 + ?Sized, Y: Tr1 + ?Sized> HrConv<'h, Y> for X {}
pub trait HrAny<'h, Y: ?Sized> {}
impl<'h, X: Tr0 + ?Sized, Y: ?Sized> HrAny<'h, Y> for X {}
pub trait RefTr {}
impl<'h, X: Tr0 + ?Sized> RefTr for &'h X {}
pub trait Cn<const N: usize> {}
impl<X: Tr0 + ?Sized, const N: usize> Cn<N> for X {}
pub trait Gat {
    type G<'h>
    where
        Self: 'h;
}
impl<X: Tr0 + ?Sized> Gat for X {
    type G<'h>
        = &'h X
    where
        X: 'h;
}

/// Records probes
pub struct Probes {
    pub n: u64,
    pub yes: u64,
    pub distinct: BTreeSet<u64>,
    pub out: String,
}
thread_local! { static P: RefCell<Probes> = RefCell::new(Probes { n: 0, yes: 0, distinct: BTreeSet::new(), out: String::new() }); }

pub fn chk(what: &str, expected: bool, got: bool) {
    P.with(|p| {
        let mut p = p.borrow_mut();
        p.n += 1;
        p.yes += u64::from(got);
        let mut h = 7;
        for b in what.bytes() {
            h = crate::mix(h, b.into());
        }
        p.distinct.insert(h);
        if p.n % 97 == 5 {
            let s = format!("SAMPLE\t{what}: implemented={got}\n");
            p.out.push_str(&s);
        }
        if expected != got {
            let s = format!(
                "VIOL\tProbe\t{what}\tprobe\t-\t-\texpected {}, found {}\n",
                if expected { "implemented" } else { "not implemented" },
                if got { "implemented" } else { "not implemented" }
            );
            p.out.push_str(&s);
        }
    })
}

pub fn finish() -> ! {
    P.with(|p| {
        let p = p.borrow();
        print!(
            "{}COV\tprobes_found_implemented\t{}\nCOV\tprobes_found_missing\t{}\nSUM\tcases={}\tnontrivial={}\nEND\n",
            p.out,
            p.yes,
            p.n - p.yes,
            p.n,
            p.distinct.len()
        );
    });
    std::process::exit(0)
}

// ---- field types that can be mapped in part only

/// No implementation at all
pub struct Opaque<T: ?Sized>(pub PhantomData<T>);
/// `FuncMap` only
pub struct NoTry<T>(pub T);
impl<A, B> FuncMap<A, B> for NoTry<A> {
    type Output = NoTry<B>;
    fn func_map<F: FnMut(A) -> B>(self, mut f: F) -> NoTry<B> {
        NoTry(f(self.0))
    }
}
/// `TryFuncMap` only
pub struct OnlyTry<T>(pub T);
impl<A, B> TryFuncMap<A, B> for OnlyTry<A> {
    type Output = OnlyTry<B>;
    fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, mut f: F) -> Result<OnlyTry<B>, E> {
        Ok(OnlyTry(f(self.0)?))
    }
}
/// Only from a type to itself
pub struct Same<T>(pub T);
impl<A> FuncMap<A, A> for Same<A> {
    type Output = Same<A>;
    fn func_map<F: FnMut(A) -> A>(self, mut f: F) -> Same<A> {
        Same(f(self.0))
    }
}
impl<A> TryFuncMap<A, A> for Same<A> {
    type Output = Same<A>;
    fn try_func_map<E, F: FnMut(A) -> Result<A, E>>(self, mut f: F) -> Result<Same<A>, E> {
        Ok(Same(f(self.0)?))
    }
}
/// Only from one particular type to another
pub struct Pair<T>(pub T);
impl FuncMap<Pe<0>, Pe<3>> for Pair<Pe<0>> {
    type Output = Pair<Pe<3>>;
    fn func_map<F: FnMut(Pe<0>) -> Pe<3>>(self, mut f: F) -> Pair<Pe<3>> {
        Pair(f(self.0))
    }
}
impl TryFuncMap<Pe<0>, Pe<3>> for Pair<Pe<0>> {
    type Output = Pair<Pe<3>>;
    fn try_func_map<E, F: FnMut(Pe<0>) -> Result<Pe<3>, E>>(self, mut f: F) -> Result<Pair<Pe<3>>, E> {
        Ok(Pair(f(self.0)?))
    }
}
/// Maps to something else
pub struct Wrong<T>(pub T);
impl<A, B> FuncMap<A, B> for Wrong<A> {
    type Output = Vec<B>;
    fn func_map<F: FnMut(A) -> B>(self, mut f: F) -> Vec<B> {
        vec![f(self.0)]
    }
}
impl<A, B> TryFuncMap<A, B> for Wrong<A> {
    type Output = Vec<B>;
    fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, mut f: F) -> Result<Vec<B>, E> {
        Ok(vec![f(self.0)?])
    }
}
/// Asks for more than the standard containers
pub struct NeedsOrd<T>(pub T);
impl<A, B: Ord> FuncMap<A, B> for NeedsOrd<A> {
    type Output = NeedsOrd<B>;
    fn func_map<F: FnMut(A) -> B>(self, mut f: F) -> NeedsOrd<B> {
        NeedsOrd(f(self.0))
    }
}
impl<A, B: Ord> TryFuncMap<A, B> for NeedsOrd<A> {
    type Output = NeedsOrd<B>;
    fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, mut f: F) -> Result<NeedsOrd<B>, E> {
        Ok(NeedsOrd(f(self.0)?))
    }
}

/// Hashing other than that of `RandomState`
#[derive(Clone, Copy, Default)]
pub struct OtherState;
impl std::hash::BuildHasher for OtherState {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        Default::default()
    }
}

/// Unsized where its parameter is
pub struct Tail<T: ?Sized>(pub u8, pub T);

/// An unsized type that has the traits of bounds
pub trait Both {}
impl Tr0 for dyn Both {}
impl Tr1 for dyn Both {}
/// Implemented by everything
pub trait NoOne {}
impl<T: ?Sized> NoOne for T {}
